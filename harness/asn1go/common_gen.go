package asn1go

import (
	"sort"
	"strings"
)

// A reader of generated Go files: Go's own grammar (with automatic semicolons)
// for the declarations a generator can need, written down independently of the
// generator. What it reads is compared as a list of declarations, so that
// layout, grouping of declarations and order of imports make no difference.

type goDecl struct {
	kind  string // "type" or "var"
	name  string
	alias bool
	typ   string // canonical type
	of    string // the name it stands for, if its type is a name
	val   string // canonical initial value
}

type goFile struct {
	mode    int
	pkg     string
	imports []string
	decls   []goDecl
	used    []string // unqualified names used
	quals   []string // packages used
}

type goTok struct {
	k byte // 'i' identifier, 'n' number, 's' string, 'o' operator, 'e' end
	s string
}

type goReader struct {
	mode int
	toks []goTok
	pos  int
	file *goFile
	bad  string
}

// What a reader leaves out of canonical types and declarations.
const (
	noTags  = 1 << iota // field tags
	noTypes             // types other than structs
	noSets              // whether a type is declared under a name that ends in SET
	setTags             // field tags other than set
)

func isGoLetter(b byte) bool {
	return vOr(vOr(vAnd('a' <= b, b <= 'z'), vAnd('A' <= b, b <= 'Z')), b == '_')
}

func isGoDigit(b byte) bool { return vAnd('0' <= b, b <= '9') }

func goTokens(src string) ([]goTok, string) {
	var toks []goTok
	semi := false
	for i := 0; i < len(src); {
		b := src[i]
		switch {
		case b == '\n':
			if semi {
				toks = append(toks, goTok{'o', ";"})
			}
			semi = false
			i++
		case b == ' ' || b == '\t' || b == '\r':
			i++
		case isGoLetter(b):
			j := i + 1
			for j < len(src) && vOr(isGoLetter(src[j]), isGoDigit(src[j])) {
				j++
			}
			toks = append(toks, goTok{'i', src[i:j]})
			semi = true
			i = j
		case isGoDigit(b):
			j := i + 1
			for j < len(src) && (src[j] == '.' || src[j] == 'e' || isGoDigit(src[j]) || (src[j] == '+' || src[j] == '-') && src[j-1] == 'e') {
				j++
			}
			toks = append(toks, goTok{'n', src[i:j]})
			semi = true
			i = j
		case b == '"' || b == '`':
			j := i + 1
			for j < len(src) && src[j] != b {
				if src[j] == '\\' || src[j] == '\n' {
					return nil, "string"
				}
				j++
			}
			if j == len(src) {
				return nil, "open string"
			}
			toks = append(toks, goTok{'s', src[i+1 : j]})
			semi = true
			i = j + 1
		case b == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case b == '{' || b == '}' || b == '(' || b == ')' || b == '[' || b == ']' || b == '=' || b == ',' || b == '.' || b == '*' || b == '-' || b == ';' || b == '+':
			toks = append(toks, goTok{'o', src[i : i+1]})
			semi = b == ')' || b == ']' || b == '}'
			i++
		default:
			return nil, "character"
		}
	}
	if semi {
		toks = append(toks, goTok{'o', ";"})
	}
	return append(toks, goTok{'e', ""}), ""
}

func (r *goReader) fail(what string) {
	if r.bad == "" {
		r.bad = what
	}
	r.pos = len(r.toks) - 1
}

func (r *goReader) op(s string) bool {
	if r.toks[r.pos].k == 'o' && r.toks[r.pos].s == s {
		r.pos++
		return true
	}
	return false
}

func (r *goReader) want(s string) {
	if !r.op(s) {
		r.fail("expected " + s)
	}
}

// word is the keyword or predeclared word at the current position.
func (r *goReader) word(s string) bool {
	t := r.toks[r.pos]
	return t.k == 'i' && len(t.s) == len(s) && t.s == s
}

var goKeywords = []string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}

func goKeyword(s string) bool {
	for _, k := range goKeywords {
		if len(k) == len(s) && k == s {
			return true
		}
	}
	return false
}

func (r *goReader) ident() string {
	t := r.toks[r.pos]
	if t.k != 'i' {
		r.fail("expected a name")
		return ""
	}
	if goKeyword(t.s) {
		r.fail("keyword as a name")
		return ""
	}
	r.pos++
	return t.s
}

// name is a possibly qualified name that is used.
func (r *goReader) name() string {
	n := r.ident()
	if r.op(".") {
		r.file.quals = append(r.file.quals, n)
		return n + "." + r.ident()
	}
	r.file.used = append(r.file.used, n)
	return n
}

func (r *goReader) typ() string {
	t := r.typeOf()
	if r.mode&noTypes != 0 && !strings.Contains(t, "struct{") {
		return "_"
	}
	return t
}

func (r *goReader) typeOf() string {
	switch {
	case r.op("*"):
		return "*" + r.typ()
	case r.op("["):
		r.want("]")
		return "[]" + r.typ()
	case r.op("("):
		t := r.typ()
		r.want(")")
		return t
	case r.word("interface"):
		r.pos++
		r.want("{")
		r.want("}")
		return "interface{}"
	case r.word("struct"):
		r.pos++
		r.want("{")
		s := "struct{"
		for r.bad == "" && !r.op("}") {
			s += r.field()
			if !r.op(";") && !(r.toks[r.pos].k == 'o' && r.toks[r.pos].s == "}") {
				r.fail("expected end of field")
			}
		}
		return s + "}"
	}
	return r.name()
}

func (r *goReader) field() string {
	names := []string{r.ident()}
	for r.op(",") {
		names = append(names, r.ident())
	}
	t := r.typ()
	tag := ""
	if r.toks[r.pos].k == 's' {
		tag = goTag(r.toks[r.pos].s)
		r.pos++
	}
	if r.mode&setTags != 0 && strings.Contains(tag, " set") {
		tag = " set"
	} else if r.mode&(noTags|setTags) != 0 {
		tag = ""
	}
	s := ""
	for _, n := range names {
		s += n + " " + t + tag + ";"
	}
	return s
}

// goTag is the canonical form of a struct tag: the options as encoding/asn1
// reads them, in a fixed order.
func goTag(s string) string {
	if !strings.HasPrefix(s, `asn1:"`) || !strings.HasSuffix(s, `"`) {
		return " ?" + s
	}
	opts := strings.Split(s[6:len(s)-1], ",")
	var plain []string
	for _, o := range opts {
		o = strings.TrimSpace(o)
		if o != "" {
			plain = append(plain, o)
		}
	}
	sort.Strings(plain)
	t := ""
	last := ""
	for _, o := range plain {
		if o != last {
			t += " " + o
		}
		last = o
	}
	return t
}

func (r *goReader) value() string {
	switch {
	case r.op("-"):
		return "-" + r.value()
	case r.op("+"):
		return r.value()
	case r.op("("):
		v := r.value()
		r.want(")")
		return v
	case r.toks[r.pos].k == 'n':
		r.pos++
		return r.toks[r.pos-1].s
	}
	n := r.name()
	if r.op("(") {
		v := r.value()
		r.want(")")
		return n + "(" + v + ")"
	}
	return n
}

func (r *goReader) spec(kind string) {
	switch kind {
	case "import":
		t := r.toks[r.pos]
		if t.k != 's' {
			r.fail("expected a path")
			return
		}
		r.pos++
		r.file.imports = append(r.file.imports, t.s)
	case "type":
		d := goDecl{kind: kind, name: r.ident()}
		d.alias = r.op("=")
		if r.toks[r.pos].k == 'i' && r.toks[r.pos+1].s == ";" {
			d.of = r.toks[r.pos].s
		}
		d.typ = r.typ()
		r.file.decls = append(r.file.decls, d)
	case "var":
		d := goDecl{kind: kind, name: r.ident()}
		if !(r.toks[r.pos].k == 'o' && r.toks[r.pos].s == "=") {
			d.typ = r.typ()
		}
		if r.op("=") {
			d.val = r.value()
		}
		r.file.decls = append(r.file.decls, d)
	}
}

// readGo reads a generated file; the second result tells what is wrong with it.
func readGo(src string, mode int) (*goFile, string) {
	toks, bad := goTokens(src)
	if bad != "" {
		return nil, bad
	}
	r := &goReader{mode: mode, toks: toks, file: &goFile{mode: mode}}
	if !r.word("package") {
		return nil, "no package clause"
	}
	r.pos++
	r.file.pkg = r.ident()
	r.want(";")
	body := false
	for r.bad == "" && r.toks[r.pos].k != 'e' {
		kind := ""
		switch {
		case r.word("import"):
			kind = "import"
			if body {
				r.fail("import after a declaration")
			}
		case r.word("type"):
			kind = "type"
			body = true
		case r.word("var"):
			kind = "var"
			body = true
		default:
			r.fail("unexpected declaration")
			continue
		}
		r.pos++
		if r.op("(") {
			for r.bad == "" && !r.op(")") {
				r.spec(kind)
				if !r.op(";") && !(r.toks[r.pos].k == 'o' && r.toks[r.pos].s == ")") {
					r.fail("expected end of declaration")
				}
			}
		} else {
			r.spec(kind)
		}
		r.want(";")
	}
	return r.file, r.bad
}

// goPath is the package name of an import path.
func goPath(p string) string { return p[strings.LastIndex(p, "/")+1:] }

var goPredeclared = []string{"bool", "byte", "float64", "int64", "string", "true", "false", "error", "int", "any"}

// selfContained tells whether every name the file uses is declared exactly
// once, predeclared or from an import, and every import is used.
func (f *goFile) selfContained() string {
	for i, d := range f.decls {
		for _, e := range f.decls[:i] {
			if d.name == e.name {
				return "a name is declared twice"
			}
		}
	}
	for _, u := range f.used {
		ok := false
		for _, d := range f.decls {
			ok = vOr(ok, d.name == u)
		}
		for _, p := range goPredeclared {
			ok = vOr(ok, p == u)
		}
		if !ok {
			return "a name is not declared"
		}
	}
	for i, p := range f.imports {
		used := false
		for _, q := range f.quals {
			used = used || goPath(p) == q
		}
		if !used {
			return "an import is not used"
		}
		for _, o := range f.imports[:i] {
			if goPath(o) == goPath(p) {
				return "a package is imported twice"
			}
		}
	}
	for _, q := range f.quals {
		ok := false
		for _, p := range f.imports {
			ok = ok || goPath(p) == q
		}
		if !ok {
			return "a package is not imported"
		}
	}
	return ""
}

// show is the canonical text of the declarations: for a type its Go type ("set"
// before it when it is declared under a name that ends in SET), for a variable
// its type and value. An alias to a type encoding/asn1 recognises by identity
// must be an alias.
func (f *goFile) show() string {
	s := ""
	for i := 0; i < len(f.decls); i++ {
		d := f.decls[i]
		if d.kind == "var" {
			s += "var " + d.name + " " + d.typ + "=" + d.val + "\n"
			continue
		}
		if !d.alias && i+1 < len(f.decls) && len(d.name) > 3 && d.name[len(d.name)-3:] == "SET" {
			n := f.decls[i+1]
			if n.kind == "type" && n.alias && n.of == d.name && d.name == n.name+"SET" {
				if f.mode&noSets != 0 {
					s += n.name + " " + d.typ + "\n"
				} else {
					s += n.name + " set " + d.typ + "\n"
				}
				i++
				continue
			}
		}
		if !d.alias {
			if d.typ == "*big.Int" || strings.Contains(d.typ, ".") && d.typ[0] != 's' && d.typ[0] != '[' {
				s += "defined "
			}
		}
		s += d.name + " " + d.typ + "\n"
	}
	return s
}

// gBuf is a destination for generated code.
type gBuf struct{ b []byte }

func (w *gBuf) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

func gModule(l ...Assignment) ModuleDefinition {
	m := ModuleDefinition{ModuleIdentifier: ModuleIdentifier{Reference: "M"}, ModuleBody: ModuleBody{AssignmentList: l}}
	if len(l)%2 == 1 {
		// what a header says is not generated
		m.ExtensibilityImplied = true
		m.ModuleIdentifier.DefinitiveIdentifier = DefinitiveIdentifier{{Name: "iso", Id: 1}, {Name: "x"}, {Id: 7}}
		m.ModuleBody.Imports = []SymbolsFromModule{
			{SymbolList: []Symbol{TypeReference("Im-Type"), ValueReference("imValue")}, Module: GlobalModuleReference{Reference: "Other-Module", AssignedIdentifier: DefinedValue{ValueName: "other"}}},
			{SymbolList: []Symbol{TypeReference("Im-Type2")}, Module: GlobalModuleReference{Reference: "Math"}},
		}
	}
	return m
}

func gGenerate(m ModuleDefinition, p GenParams) (string, error) {
	w := &gBuf{}
	err := NewCodeGenerator(p).Generate(m, w)
	return string(w.b), err
}

// gCheck generates code for the module and compares its declarations with want.
func gCheck(m ModuleDefinition, p GenParams, mode int, want, what string) *goFile {
	text, err := gGenerate(m, p)
	vAssert(err == nil, what+": generation fails")
	f, bad := readGo(text, mode)
	vAssert(bad == "", what+": the output is not a well-formed Go file")
	vAssert(f.show() == want, what+": the declarations are not the prescribed ones")
	return f
}
