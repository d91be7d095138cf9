// mutate lists the single-point mutants of Go and C files, and applies one.
//
//	mutate list FILE...       one line per mutant: FILE:INDEX line kind old -> new
//	mutate apply FILE INDEX   rewrites FILE
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	repl     string
	kind     string
}

var swaps = map[string][]string{
	"IPredSLT": {"IPredSLE", "IPredULT"}, "IPredSLE": {"IPredSLT", "IPredULE"}, "IPredSGT": {"IPredSGE", "IPredUGT"},
	"IPredSGE": {"IPredSGT", "IPredUGE"}, "IPredEQ": {"IPredNE"}, "IPredNE": {"IPredEQ", "IPredSGT"},
	"NewAdd": {"NewSub", "NewOr"}, "NewSub": {"NewAdd"}, "NewSDiv": {"NewUDiv"}, "NewSRem": {"NewURem"}, "NewLShr": {"NewAShr"},
	"NewShl": {"NewLShr"}, "NewAnd": {"NewOr"}, "NewOr": {"NewXor", "NewAnd"}, "NewMul": {"NewAdd"}, "NewZExt": {"NewSExt"},
	"I32": {"I64"}, "I64": {"I32"}, "NewVector": nil,
}

func goMuts(src []byte) []mut {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, r, k string) { ms = append(ms, mut{off(a), off(b), r, k}) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"},
		token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"+"}, token.SHL: {">>"}, token.AND: {"|"}, token.OR: {"&"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, r := range ops[x.Op] {
				if x.Op == token.ADD {
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), "("+text(x.X)+")", "left")
				add(x.Pos(), x.End(), "("+text(x.Y)+")", "right")
			}
		case *ast.IfStmt:
			if t := text(x.Cond); t != "err != nil" {
				add(x.Cond.Pos(), x.Cond.End(), "!("+t+")", "not")
				add(x.Cond.Pos(), x.Cond.End(), "("+t+") && false", "never")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
					if v > 0 {
						add(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
					}
				}
			}
			if x.Kind == token.CHAR {
				add(x.Pos(), x.End(), "'\\x01'", "char")
			}
		case *ast.Ident:
			for _, r := range swaps[x.Name] {
				add(x.Pos(), x.End(), r, "swap")
			}
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "bool")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
			add(n.Pos(), n.End(), "", "drop")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				var names []string
				for _, e := range x.Rhs {
					names = append(names, text(e))
				}
				us := strings.TrimSuffix(strings.Repeat("_, ", len(x.Rhs)), ", ")
				add(n.Pos(), n.End(), us+" = "+strings.Join(names, ", "), "drop")
			}
		case *ast.BranchStmt:
			add(n.Pos(), n.End(), "", "drop")
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				break
			}
			if l := text(x.Results[len(x.Results)-1]); strings.HasPrefix(l, "fmt.Errorf") {
				add(n.Pos(), n.End(), "", "drop-error")
			}
		}
		return true
	})
	return ms
}

var cRules = []struct {
	re *regexp.Regexp
	to []string
}{
	{regexp.MustCompile(`<=`), []string{"<"}}, {regexp.MustCompile(`>=`), []string{">"}},
	{regexp.MustCompile(` < `), []string{" <= "}}, {regexp.MustCompile(` > `), []string{" >= "}},
	{regexp.MustCompile(`==`), []string{"!="}}, {regexp.MustCompile(`!=`), []string{"=="}},
	{regexp.MustCompile(` \+ `), []string{" - "}}, {regexp.MustCompile(` - `), []string{" + "}},
	{regexp.MustCompile(`&&`), []string{"||"}}, {regexp.MustCompile(`\|\|`), []string{"&&"}},
	{regexp.MustCompile(`\+\+`), []string{"--"}}, {regexp.MustCompile(`--`), []string{"++"}},
	{regexp.MustCompile(`unsigned `), []string{"signed "}}, {regexp.MustCompile(`\buintptr_t\b`), []string{"intptr_t", "unsigned"}},
	{regexp.MustCompile(`\bword_t\b`), []string{"int"}},
	{regexp.MustCompile(`(?m)^ +[a-z_*]+[^;{}\n]*;$`), []string{";"}},
	{regexp.MustCompile(`'[^']+'`), []string{"'?'"}},
}
var cNum = regexp.MustCompile(`\b\d+\b`)

func cMuts(src []byte) []mut {
	var ms []mut
	t := string(src)
	skip := regexp.MustCompile(`(?m)//.*$|/\*[^*]*\*/|^#.*$`).FindAllStringIndex(t, -1)
	ok := func(a int) bool {
		for _, s := range skip {
			if a >= s[0] && a < s[1] {
				return false
			}
		}
		return true
	}
	for _, r := range cRules {
		for _, m := range r.re.FindAllStringIndex(t, -1) {
			if ok(m[0]) {
				for _, x := range r.to {
					ms = append(ms, mut{m[0], m[1], x, "c"})
				}
			}
		}
	}
	for _, m := range cNum.FindAllStringIndex(t, -1) {
		if ok(m[0]) {
			v, _ := strconv.Atoi(t[m[0]:m[1]])
			ms = append(ms, mut{m[0], m[1], fmt.Sprint(v + 1), "int"})
			if v > 0 {
				ms = append(ms, mut{m[0], m[1], fmt.Sprint(v - 1), "int"})
			}
		}
	}
	return ms
}

func muts(file string) ([]byte, []mut) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var ms []mut
	if strings.HasSuffix(file, ".go") {
		ms = goMuts(src)
	} else {
		ms = cMuts(src)
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].from < ms[j].from })
	return src, ms
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			src, ms := muts(f)
			for i, m := range ms {
				one := func(s string) string {
					s = strings.Join(strings.Fields(s), " ")
					if len(s) > 60 {
						s = s[:60] + "..."
					}
					return s
				}
				fmt.Printf("%s:%d line %d %s: %s -> %s\n", f, i, 1+strings.Count(string(src[:m.from]), "\n"), m.kind, one(string(src[m.from:m.to])), one(m.repl))
			}
		}
	case "apply":
		src, ms := muts(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		m := ms[i]
		out := string(src[:m.from]) + m.repl + string(src[m.to:])
		if err := os.WriteFile(os.Args[2], []byte(out), 0o644); err != nil {
			panic(err)
		}
	}
}
