MAIN = '''package main

import (
	"fmt"
	"os"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

var _ = cty.True

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func main() {
%s
}
'''

seed("c09-nested-for-scope", "C09", "hcl/hclsyntax/variables.go",
'''		for _, names := range w.localScopes {
			if _, localized := names[name]; localized {
				return nil
			}
		}
''', '''		if last := len(w.localScopes) - 1; last >= 0 {
			if _, localized := w.localScopes[last][name]; localized {
				return nil
			}
		}
''', "a for expression nested in another one that refers to a variable of the outer one",
"A variable of an outer for expression is reported as an external reference when it is used inside a nested for expression.",
MAIN % '''	e, _ := hclsyntax.ParseExpression([]byte("[for k, v in m : [for x in v : k]]"), "", hcl.Pos{Line: 1, Column: 1})
	for _, t := range e.Variables() {
		if t.RootName() == "k" {
			fail("k reported as an external reference")
		}
	}''')

seed("c02-heredoc-crlf-line", "C02", "hcl/hclsyntax/token.go",
'''		if (len(seq) == 1 && seq[0] == '\\n') || (len(seq) == 2 && seq[0] == '\\r' && seq[1] == '\\n') {
''', '''		if seq[0] == '\\n' || (len(b) == 2 && seq[0] == '\\r' && len(seq) == 2) {
''', "a token that contains a CRLF line ending before its last two bytes, such as a block comment",
"Line numbers after a multi-line comment with CRLF endings are too small.",
MAIN % '''	toks, _ := hclsyntax.LexConfig([]byte("/* a\\r\\n b */ x = 1\\n"), "", hcl.Pos{Line: 1, Column: 1})
	for _, t := range toks {
		if string(t.Bytes) == "x" && t.Range.Start.Line != 2 {
			fail("x is on line %d", t.Range.Start.Line)
		}
	}''')

seed("c06-flush-blank-line", "C06", "hcl/hclsyntax/parser_template.go",
'''				if len(trimmed) == 0 && strings.HasSuffix(orig, "\\n") {
''', '''				if len(trimmed) == 0 && (orig == "\\n" || orig == "\\r\\n") {
''', "an indented heredoc with a line of spaces only that is shorter than the other lines' indentation",
"A whitespace-only line takes part in determining the indentation of an indented heredoc.",
MAIN % '''	f, _ := hclsyntax.ParseConfig([]byte("a = <<-E\\n    x\\n  \\n    y\\n  E\\n"), "", hcl.Pos{Line: 1, Column: 1})
	as, _ := f.Body.JustAttributes()
	v, _ := as["a"].Expr.Value(nil)
	if v.AsString() != "x\\n  \\ny\\n" {
		fail("got %q", v.AsString())
	}''')

seed("c04-cond-null-branch", "C04", "hcl/hclsyntax/expression.go",
'''	case falseResult.RawEquals(cty.NullVal(cty.DynamicPseudoType)):
		resultType = trueResult.Type()
		convs[1] = convert.GetConversionUnsafe(cty.DynamicPseudoType, resultType)
''', '''	case falseResult.IsNull() && !trueResult.IsNull():
		resultType = trueResult.Type()
		convs[1] = convert.GetConversionUnsafe(cty.DynamicPseudoType, resultType)
''', "a conditional whose false branch is a typed null that does not convert to the type of the true branch",
"A conditional with branches of inconsistent types is accepted, or keeps the type of its true branch, when the false branch is a typed null.",
MAIN % '''	e, _ := hclsyntax.ParseExpression([]byte("true ? 1 : s"), "", hcl.Pos{Line: 1, Column: 1})
	v, _ := e.Value(&hcl.EvalContext{Variables: map[string]cty.Value{"s": cty.NullVal(cty.String)}})
	if v.Type() != cty.String {
		fail("got %#v", v)
	}''')
