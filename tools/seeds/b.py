def prog(imports, body, top=""):
    paths = {
        "hcl": "github.com/hashicorp/hcl2/hcl", "hclsyntax": "github.com/hashicorp/hcl2/hcl/hclsyntax",
        "json": "github.com/hashicorp/hcl2/hcl/json", "cty": "github.com/zclconf/go-cty/cty",
        "function": "github.com/zclconf/go-cty/cty/function", "hcldec": "github.com/hashicorp/hcl2/hcldec",
        "gohcl": "github.com/hashicorp/hcl2/gohcl", "hclwrite": "github.com/hashicorp/hcl2/hclwrite",
        "hclpack": "github.com/hashicorp/hcl2/hclpack", "dynblock": "github.com/hashicorp/hcl2/ext/dynblock",
        "transform": "github.com/hashicorp/hcl2/ext/transform", "include": "github.com/hashicorp/hcl2/ext/include",
        "typeexpr": "github.com/hashicorp/hcl2/ext/typeexpr", "userfunc": "github.com/hashicorp/hcl2/ext/userfunc",
        "hclparse": "github.com/hashicorp/hcl2/hclparse", "hcltest": "github.com/hashicorp/hcl2/hcltest",
        "hcled": "github.com/hashicorp/hcl2/hcled",
    }
    lines = "".join('\t"%s"\n' % paths.get(i, i) for i in ["fmt", "os"] + imports.split())
    return '''package main

import (
%s)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}
%s
func main() {
%s
}
''' % (lines, top, body)


POS = "hcl.Pos{Line: 1, Column: 1}"

seed("c03-second-else", "C03", "hcl/hclsyntax/parser_template.go",
'''				if currentExprs == &ifExprs {
''', '''				if currentExprs == &ifExprs || len(elseExprs) == 0 {
''', "an if directive with two adjacent else directives",
"A template with two else directives for one if directive is accepted.",
prog("hcl hclsyntax", '''	_, diags := hclsyntax.ParseTemplate([]byte("%{ if true }a%{ else }%{ else }b%{ endif }"), "", ''' + POS + ''')
	if !diags.HasErrors() {
		fail("accepted")
	}'''))

seed("c05-duplicate-equal-values", "C05", "hcl/hclsyntax/expression.go",
'''				if _, exists := vals[k]; exists {
					diags = append(diags, &hcl.Diagnostic{
						Severity: hcl.DiagError,
						Summary:  "Duplicate object key",
						Detail: fmt.Sprintf(
							"Two different items''',
'''				if existing, exists := vals[k]; exists && !existing.RawEquals(val) {
					diags = append(diags, &hcl.Diagnostic{
						Severity: hcl.DiagError,
						Summary:  "Duplicate object key",
						Detail: fmt.Sprintf(
							"Two different items''',
"an object for expression in which two items give the same key and equal values",
"Duplicate keys in an object for expression are not reported when the values are the same.",
prog("hcl hclsyntax", '''	e, _ := hclsyntax.ParseExpression([]byte("{for v in [1, 2]: \\"a\\" => true}"), "", ''' + POS + ''')
	_, diags := e.Value(&hcl.EvalContext{})
	if !diags.HasErrors() {
		fail("accepted")
	}'''))

seed("c06-strip-other-space", "C06", "hcl/hclsyntax/parser_template.go",
'''					lexpr.Val = strings.TrimRightFunc(lexpr.Val, unicode.IsSpace)
				}
			}

			p.PushIncludeNewlines(false)
''', '''					lexpr.Val = strings.TrimRight(lexpr.Val, " \\t\\n")
				}
			}

			p.PushIncludeNewlines(false)
''', "an interpolation with a strip marker after a CRLF line ending",
"A strip marker at the beginning of an interpolation leaves the carriage return of a CRLF line ending.",
prog("hcl hclsyntax", '''	e, _ := hclsyntax.ParseExpression([]byte("\\"a\\\\r\\\\n  ${~ 1 }\\""), "", ''' + POS + ''')
	v, _ := e.Value(&hcl.EvalContext{})
	if v.AsString() != "a1" {
		fail("got %q", v.AsString())
	}'''))

seed("c07-surrogate-escape", "C07", "hcl/hclsyntax/parser.go",
'''				if l == -1 {
					diags = append(diags, &hcl.Diagnostic{
						Severity: hcl.DiagError,
						Summary:  "Invalid escape sequence",
						Detail:   fmt.Sprintf("Cannot encode character U+%04x in UTF-8.", num),
						Subject:  rng.Ptr(),
					})
					break TokenType
				}
''', '''				if l == -1 && num < 0x10000 {
					r = utf8.RuneError
					l = utf8.RuneLen(r)
				}
				if l == -1 {
					diags = append(diags, &hcl.Diagnostic{
						Severity: hcl.DiagError,
						Summary:  "Invalid escape sequence",
						Detail:   fmt.Sprintf("Cannot encode character U+%04x in UTF-8.", num),
						Subject:  rng.Ptr(),
					})
					break TokenType
				}
''', "a unicode escape sequence for a surrogate",
"An escape sequence for an invalid character is accepted and means the replacement character.",
prog("hcl hclsyntax", '''	_, diags := hclsyntax.ParseExpression([]byte("\\"\\\\ud800\\""), "", ''' + POS + ''')
	if !diags.HasErrors() {
		fail("accepted")
	}'''))

seed("c08-for-unknown-condition", "C08", "hcl/hclsyntax/expression.go",
'''				if !include.IsKnown() {
					known = false
					continue
				}

				if include.False() {
					// Skip this element
					continue
				}
			}

			keyRaw, keyDiags''', '''				if !include.IsKnown() || include.False() {
					// Skip this element
					continue
				}
			}

			keyRaw, keyDiags''',
"an object for expression whose condition is unknown for some element",
"An object for expression treats an unknown condition as false instead of giving an unknown result.",
prog("hcl hclsyntax cty", '''	e, _ := hclsyntax.ParseExpression([]byte("{for v in [1, 2]: v => v if v == 1 || u}"), "", ''' + POS + ''')
	v, _ := e.Value(&hcl.EvalContext{Variables: map[string]cty.Value{"u": cty.UnknownVal(cty.Bool)}})
	if v.IsWhollyKnown() {
		fail("got %#v", v)
	}'''))

seed("c10-expand-close-paren", "C10", "hcl/hclsyntax/parser.go",
'''				closeTok = p.recover(TokenCParen)
			} else {
				closeTok = p.Read() // eat closing paren
			}
''', '''				closeTok = p.recover(TokenCParen)
			} else {
				p.Read() // eat closing paren
				closeTok = sep
			}
''', "a function call whose last argument is expanded",
"The source range of a function call with an expanded final argument ends before the closing parenthesis.",
prog("hcl hclsyntax", '''	src := []byte("f(a...)")
	e, _ := hclsyntax.ParseExpression(src, "", ''' + POS + ''')
	if got := string(e.Range().SliceBytes(src)); got != "f(a...)" {
		fail("got %q", got)
	}'''))

seed("c11-expand-args-alias", "C11", "hcl/hclsyntax/expression.go",
'''			newArgs := make([]Expression, 0, (len(args)-1)+expandVal.LengthInt())
			newArgs = append(newArgs, args[:len(args)-1]...)
''', '''			newArgs := args[:len(args)-1]
''', "evaluating the same call with an expanded final argument more than once",
"Evaluating a function call with an expanded argument replaces that argument in the syntax tree by the value it had.",
prog("hcl hclsyntax cty function", '''	f := function.New(&function.Spec{
		VarParam: &function.Parameter{Name: "n", Type: cty.String},
		Type:     function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, retType cty.Type) (cty.Value, error) {
			s := ""
			for _, a := range args {
				s += a.AsString()
			}
			return cty.StringVal(s), nil
		},
	})
	e, _ := hclsyntax.ParseExpression([]byte("f(a...)"), "", ''' + POS + ''')
	for _, want := range []string{"x", "y"} {
		v, diags := e.Value(&hcl.EvalContext{
			Variables: map[string]cty.Value{"a": cty.ListVal([]cty.Value{cty.StringVal(want)})},
			Functions: map[string]function.Function{"f": f},
		})
		if diags.HasErrors() || v.AsString() != want {
			fail("got %#v, want %s", v, want)
		}
	}'''))

seed("c12-label-count-stops", "C12", "hcl/hclsyntax/structure.go",
'''				Subject: &block.OpenBraceRange,
				Context: hcl.RangeBetween(block.TypeRange, block.OpenBraceRange).Ptr(),
			})
			continue
''', '''				Subject: &block.OpenBraceRange,
				Context: hcl.RangeBetween(block.TypeRange, block.OpenBraceRange).Ptr(),
			})
			break
''', "a block with too few labels that is followed by a valid block",
"Blocks after a block with too few labels are missing from the content.",
prog("hcl hclsyntax", '''	f, _ := hclsyntax.ParseConfig([]byte("a {}\\na \\"x\\" {}\\n"), "", ''' + POS + ''')
	content, diags := f.Body.Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "a", LabelNames: []string{"n"}}}})
	if !diags.HasErrors() || len(content.Blocks) != 1 {
		fail("got %d blocks", len(content.Blocks))
	}'''))

seed("c13-json-required-consumed", "C13", "hcl/json/structure.go",
'''		if _, defined := content.Attributes[attrS.Name]; !defined {
''', '''		if _, defined := usedNames[attrS.Name]; !defined {
''', "a JSON body whose remaining body is asked for a required argument that was taken already",
"A required argument is not reported as missing from the remaining body of a JSON body if an earlier partial decode has consumed it.",
prog("hcl json", '''	f, _ := json.Parse([]byte(`{"a": 1}`), "x.json")
	schema := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}}}
	_, remain, _ := f.Body.PartialContent(schema)
	_, diags := remain.Content(schema)
	if !diags.HasErrors() {
		fail("not reported")
	}'''))

seed("c14-error-hides-attributes", "C14", "hcl/merged.go",
'''		if thisContent.Attributes != nil {
''', '''		if thisContent.Attributes != nil && !thisDiags.HasErrors() {
''', "merged bodies of which one has an error that is not about its arguments",
"The arguments of a part of a merged body are lost if there is any error in that part.",
prog("hcl hclsyntax", '''	a, _ := hclsyntax.ParseConfig([]byte("a = 1\\nb {}\\n"), "a", ''' + POS + ''')
	b, _ := hclsyntax.ParseConfig([]byte("c = 1\\n"), "b", ''' + POS + ''')
	content, _ := hcl.MergeFiles([]*hcl.File{a, b}).Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "c"}}})
	if len(content.Attributes) != 2 {
		fail("got %d attributes", len(content.Attributes))
	}'''))

seed("c15-json-null-label", "C15", "hcl/json/structure.go",
'''		labelsUsed := append(labelsUsed, "")
		labelRanges := append(labelRanges, hcl.Range{})
		for _, p := range jsonAttrs {
			pk := p.Name
''', '''		labelsUsed := append(labelsUsed, "")
		labelRanges := append(labelRanges, hcl.Range{})
		for _, p := range jsonAttrs {
			pk := p.Name
			if pk == "//" {
				// Ignore comments.
				continue
			}
''', "a JSON body with a block whose label is //",
"A block with the label // is dropped from a JSON body although native syntax allows that label.",
prog("hcl json", '''	f, _ := json.Parse([]byte(`{"a": {"//": {}, "b": {}}}`), "x.json")
	content, _ := f.Body.Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "a", LabelNames: []string{"n"}}}})
	if len(content.Blocks) != 2 {
		fail("got %d blocks", len(content.Blocks))
	}'''))

seed("c16-escaped-slash", "C16", "hcl/json/parser.go",
'''	var str string
	err := json.Unmarshal(tok.Bytes, &str)
''', '''	var str string
	err := json.Unmarshal(bytes.ToValidUTF8(bytes.ReplaceAll(tok.Bytes, []byte(`\\/`), []byte(`/`)), nil), &str)
''', "a JSON string in which an escaped backslash is followed by a slash",
"An escaped backslash before a slash is taken for an escaped slash, so that valid strings are refused or mean something else.",
prog("hcl json", '''	f, diags := json.Parse([]byte(`{"a": "x\\\\/y"}`), "x.json")
	if diags.HasErrors() {
		fail("refused")
	}
	attrs, _ := f.Body.JustAttributes()
	v, _ := attrs["a"].Expr.Value(nil)
	if v.AsString() != "x\\\\/y" {
		fail("got %q", v.AsString())
	}
	var _ hcl.Pos'''), more=[("hcl/json/parser.go", '''import (
	"encoding/json"
''', '''import (
	"bytes"
	"encoding/json"
''')])

seed("c17-unknown-key-stops", "C17", "hcl/json/structure.go",
'''				known = false
				continue
			}
			nameStr := name.AsString()
''', '''				return cty.DynamicVal, diags
			}
			nameStr := name.AsString()
''', "a JSON object with an unknown property name before a property with an error",
"Errors in properties after one with an unknown name are not reported.",
prog("hcl json cty", '''	f, _ := json.Parse([]byte(`{"a": {"${u}": 1, "b": "${nope}"}}`), "x.json")
	attrs, _ := f.Body.JustAttributes()
	_, diags := attrs["a"].Expr.Value(&hcl.EvalContext{Variables: map[string]cty.Value{"u": cty.UnknownVal(cty.String)}})
	if !diags.HasErrors() {
		fail("no error")
	}'''))

seed("c18-index-comment", "C18", "hclwrite/parser.go",
'''			children.AppendUnstructuredTokens(valBefore.Tokens())
			key := newNumber(valToken)
''', '''			_ = valBefore
			key := newNumber(valToken)
''', "a traversal with a comment between the bracket and the number of an index step",
"A comment in front of the number in an index step is lost when a file is loaded for writing.",
prog("hcl hclwrite", '''	src := "a = b[/* c */ 0]\\n"
	f, diags := hclwrite.ParseConfig([]byte(src), "", ''' + POS + ''')
	if diags.HasErrors() {
		fail("%s", diags)
	}
	if got := string(f.Bytes()); got != src {
		fail("got %q", got)
	}'''))

seed("c19-set-reference-twice", "C19", "hclwrite/ast_body.go",
'''	expr := NewExpressionAbsTraversal(traversal)
	if attr != nil {
		attr.expr = attr.expr.ReplaceWith(expr)
''', '''	expr := NewExpressionAbsTraversal(traversal)
	if attr != nil {
		attr.expr.ReplaceWith(expr)
''', "setting an existing attribute to a reference and then changing that attribute again",
"After setting an existing attribute to a reference, later changes of that attribute have no effect or fail.",
prog("hcl hclwrite cty", '''	f, _ := hclwrite.ParseConfig([]byte("a = 1\\n"), "", ''' + POS + ''')
	f.Body().SetAttributeTraversal("a", hcl.Traversal{hcl.TraverseRoot{Name: "b"}})
	f.Body().SetAttributeValue("a", cty.True)
	if got := string(hclwrite.Format(f.Bytes())); got != "a = true\\n" {
		fail("got %q", got)
	}'''))

seed("c20-astral-escape", "C20", "hclwrite/generate.go",
'''				if r < 65536 {
					fmted = fmt.Sprintf("\\\\u%04x", r)
				} else {
					fmted = fmt.Sprintf("\\\\U%08x", r)
				}
''', '''				fmted = fmt.Sprintf("\\\\u%04x", r)
''', "a string with a character above U+FFFF that is not printable",
"A non-printable character outside of the basic multilingual plane is written with an escape that means something else.",
prog("hcl hclsyntax hclwrite cty", '''	want := "a\\U000e0001b"
	toks := hclwrite.TokensForValue(cty.StringVal(want))
	e, diags := hclsyntax.ParseExpression(toks.Bytes(), "", ''' + POS + ''')
	if diags.HasErrors() {
		fail("%s", diags)
	}
	v, _ := e.Value(nil)
	if v.AsString() != want {
		fail("got %q", v.AsString())
	}'''))

seed("c22-transform-failed-type", "C22", "hcldec/spec.go",
'''			Detail:   fmt.Sprintf("Decoder transform returned an error: %s", err),
			Subject:  s.sourceRange(content, blockLabels).Ptr(),
		})
		return cty.UnknownVal(s.impliedType()), diags
''', '''			Detail:   fmt.Sprintf("Decoder transform returned an error: %s", err),
			Subject:  s.sourceRange(content, blockLabels).Ptr(),
		})
		return cty.UnknownVal(s.Wrapped.impliedType()), diags
''', "a transform function that changes the type of its argument and fails",
"When a transform function fails, the decoded value has the type of the wrapped spec and not the implied type.",
prog("hcl hclsyntax hcldec cty function errors", '''	spec := &hcldec.TransformFuncSpec{
		Wrapped: &hcldec.AttrSpec{Name: "a", Type: cty.String},
		Func: function.New(&function.Spec{
			Params: []function.Parameter{{Name: "v", Type: cty.String, AllowNull: true}},
			Type:   function.StaticReturnType(cty.Number),
			Impl: func(args []cty.Value, retType cty.Type) (cty.Value, error) {
				return cty.NilVal, errors.New("failed")
			},
		}),
	}
	f, _ := hclsyntax.ParseConfig([]byte("a = \\"x\\"\\n"), "", ''' + POS + ''')
	v, diags := hcldec.Decode(f.Body, spec, nil)
	if !diags.HasErrors() || !v.Type().Equals(hcldec.ImpliedType(spec)) {
		fail("got %#v", v)
	}'''))

seed("c23-set-count-distinct", "C23", "hcldec/spec.go",
'''		val, _, childDiags := decode(childBlock.Body, labelsForBlock(childBlock), ctx, s.Nested, false)
		diags = append(diags, childDiags...)
		elems = append(elems, val)
		sourceRanges = append(sourceRanges, sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested))
	}

	if len(elems) < s.MinItems {
		diags = append(diags, &hcl.Diagnostic{
			Severity: hcl.DiagError,
			Summary:  fmt.Sprintf("Insufficient %s blocks", s.TypeName),
			Detail:   fmt.Sprintf("At least %d %q blocks are required.", s.MinItems, s.TypeName),
			Subject:  &content.MissingItemRange,
		})
	} else if s.MaxItems > 0 && len(elems) > s.MaxItems {
		diags = append(diags, &hcl.Diagnostic{
			Severity: hcl.DiagError,
			Summary:  fmt.Sprintf("Too many %s blocks", s.TypeName),
			Detail:   fmt.Sprintf("No more than %d %q blocks are allowed", s.MaxItems, s.TypeName),
			Subject:  &sourceRanges[s.MaxItems],
		})
	}

	var ret cty.Value

	if len(elems) == 0 {
		ret = cty.SetValEmpty''',
'''		val, _, childDiags := decode(childBlock.Body, labelsForBlock(childBlock), ctx, s.Nested, false)
		diags = append(diags, childDiags...)
		if last := len(elems) - 1; last >= 0 && elems[last].RawEquals(val) {
			continue // no need to record repeated elements
		}
		elems = append(elems, val)
		sourceRanges = append(sourceRanges, sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested))
	}

	if len(elems) < s.MinItems {
		diags = append(diags, &hcl.Diagnostic{
			Severity: hcl.DiagError,
			Summary:  fmt.Sprintf("Insufficient %s blocks", s.TypeName),
			Detail:   fmt.Sprintf("At least %d %q blocks are required.", s.MinItems, s.TypeName),
			Subject:  &content.MissingItemRange,
		})
	} else if s.MaxItems > 0 && len(elems) > s.MaxItems {
		diags = append(diags, &hcl.Diagnostic{
			Severity: hcl.DiagError,
			Summary:  fmt.Sprintf("Too many %s blocks", s.TypeName),
			Detail:   fmt.Sprintf("No more than %d %q blocks are allowed", s.MaxItems, s.TypeName),
			Subject:  &sourceRanges[s.MaxItems],
		})
	}

	var ret cty.Value

	if len(elems) == 0 {
		ret = cty.SetValEmpty''',
"a block set with item limits and adjacent blocks with equal content",
"Adjacent blocks with equal content count as one block for the item limits of a block set.",
prog("hcl hclsyntax hcldec cty", '''	spec := &hcldec.BlockSetSpec{TypeName: "b", Nested: &hcldec.AttrSpec{Name: "a", Type: cty.String}, MinItems: 2}
	f, _ := hclsyntax.ParseConfig([]byte("b {\\n  a = 1\\n}\\nb {\\n  a = 1\\n}\\n"), "", ''' + POS + ''')
	_, diags := hcldec.Decode(f.Body, spec, nil)
	if diags.HasErrors() {
		fail("%s", diags)
	}'''))

seed("c24-block-map-first", "C24", "hcldec/spec.go",
'''func (s *BlockMapSpec) variablesNeeded(content *hcl.BodyContent) []hcl.Traversal {
	var ret []hcl.Traversal

	for _, childBlock := range content.Blocks {
		if childBlock.Type != s.TypeName {
			continue
		}

		ret = append(ret, Variables(childBlock.Body, s.Nested)...)
	}

	return ret
}
''', '''func (s *BlockMapSpec) variablesNeeded(content *hcl.BodyContent) []hcl.Traversal {
	for _, childBlock := range content.Blocks {
		if childBlock.Type != s.TypeName {
			continue
		}

		return Variables(childBlock.Body, s.Nested)
	}

	return nil
}
''', "a block map with several blocks that refer to variables",
"Only the variables of the first block of a block map are reported.",
prog("hcl hclsyntax hcldec cty", '''	spec := &hcldec.BlockMapSpec{TypeName: "b", LabelNames: []string{"n"}, Nested: &hcldec.AttrSpec{Name: "a", Type: cty.String}}
	f, _ := hclsyntax.ParseConfig([]byte("b \\"x\\" {\\n  a = v\\n}\\nb \\"y\\" {\\n  a = w\\n}\\n"), "", ''' + POS + ''')
	if n := len(hcldec.Variables(f.Body, spec)); n != 2 {
		fail("got %d variables", n)
	}'''))

seed("c26-existing-content", "C26", "gohcl/encode.go",
'''	dst.Clear()

	prevWasBlock := false
''', '''	prevWasBlock := false
''', "encoding into a body that has content already",
"Blocks that were in the body before are left there when a value is encoded into it.",
prog("hclwrite gohcl", '''	type blk struct {
		A int `hcl:"a"`
	}
	v := struct {
		B []blk `hcl:"b,block"`
	}{B: []blk{{A: 1}}}
	f := hclwrite.NewEmptyFile()
	gohcl.EncodeIntoBody(&v, f.Body())
	gohcl.EncodeIntoBody(&v, f.Body())
	if n := len(f.Body().Blocks()); n != 1 {
		fail("got %d blocks", n)
	}'''))

seed("c27-second-file-byte", "C27", "hclpack/positions_packed.go",
'''			accPos = hcl.Pos{} // reset base position for each new file
''', '''			accPos.Line = 0 // reset base position for each new file
			accPos.Column = 0
''', "a packed body with positions in more than one file",
"The byte offsets of positions in the second and later files are wrong after a packed body was transported as JSON.",
prog("hcl hclpack encoding/json", '''	a, _ := hclpack.PackNativeFile([]byte("\\n\\na = 1\\n"), "a", ''' + POS + ''')
	b, _ := hclpack.PackNativeFile([]byte("b = 2\\n"), "b", ''' + POS + ''')
	for k, v := range b.Attributes {
		a.Attributes[k] = v
	}
	raw, err := json.Marshal(a)
	if err != nil {
		fail("%s", err)
	}
	var got hclpack.Body
	if err := json.Unmarshal(raw, &got); err != nil {
		fail("%s", err)
	}
	if got.Attributes["b"].NameRange != a.Attributes["b"].NameRange {
		fail("got %#v", got.Attributes["b"].NameRange)
	}'''))


seed("c29-same-iterator-name", "C29", "ext/dynblock/iteration.go",
'''		new.Variables = map[string]cty.Value{}
		for name, otherIt := range i.Inherited {
			new.Variables[name] = otherIt.Object()
		}
		new.Variables[i.IteratorName] = i.Object()
''', '''		new.Variables = map[string]cty.Value{
			i.IteratorName: i.Object(),
		}
		for name, otherIt := range i.Inherited {
			new.Variables[name] = otherIt.Object()
		}
''', "a dynamic block nested in another one with the same iterator name",
"The iterator of an outer dynamic block hides that of an inner one with the same name.",
prog("hcl hclsyntax dynblock hcldec cty", '''	src := `
dynamic "a" {
  for_each = ["x"]
  content {
    dynamic "a" {
      for_each = ["y"]
      content {
        v = a.value
      }
    }
  }
}
`
	f, _ := hclsyntax.ParseConfig([]byte(src), "", ''' + POS + ''')
	spec := &hcldec.BlockSpec{TypeName: "a", Nested: &hcldec.BlockSpec{TypeName: "a", Nested: &hcldec.AttrSpec{Name: "v", Type: cty.String}}}
	ctx := &hcl.EvalContext{}
	v, diags := hcldec.Decode(dynblock.Expand(f.Body, ctx), spec, ctx)
	if diags.HasErrors() || !v.RawEquals(cty.StringVal("y")) {
		fail("got %#v %s", v, diags)
	}'''))

seed("c30-for-each-own-name", "C30", "ext/dynblock/variables.go",
'''					if _, inherited := blockIt.Inherited[traversal.RootName()]; !inherited {
						vars = append(vars, traversal)
					}
''', '''					ours := traversal.RootName() == iteratorName
					if _, inherited := blockIt.Inherited[traversal.RootName()]; !(ours || inherited) {
						vars = append(vars, traversal)
					}
''', "a dynamic block whose for_each refers to a variable with the name of its iterator",
"The variable in for_each is not reported if it has the same name as the iterator.",
prog("hcl hclsyntax dynblock hcldec cty", '''	f, _ := hclsyntax.ParseConfig([]byte("dynamic \\"a\\" {\\n  for_each = a\\n  content {}\\n}\\n"), "", ''' + POS + ''')
	spec := &hcldec.BlockListSpec{TypeName: "a", Nested: &hcldec.AttrSpec{Name: "v", Type: cty.String}}
	if n := len(dynblock.VariablesHCLDec(f.Body, spec)); n != 1 {
		fail("got %d variables", n)
	}'''))

seed("c31-one-level", "C31", "ext/transform/transform.go",
'''		newBlock.Body = Deep(newBlock.Body, w.Transformer)
		ret.Blocks[i] = &newBlock
''', '''		if _, done := newBlock.Body.(deepWrapper); !done {
			newBlock.Body = Shallow(newBlock.Body, w.Transformer)
		}
		ret.Blocks[i] = &newBlock
''', "blocks nested two levels deep in a deeply transformed body",
"A deep transform is not applied to blocks below the first level.",
prog("hcl hclsyntax transform", '''	n := 0
	count := transform.TransformerFunc(func(b hcl.Body) hcl.Body {
		n++
		return b
	})
	f, _ := hclsyntax.ParseConfig([]byte("a {\\n  a {\\n    a {}\\n  }\\n}\\n"), "", ''' + POS + ''')
	body := transform.Deep(f.Body, count)
	schema := &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "a"}}}
	for {
		content, _ := body.Content(schema)
		if len(content.Blocks) == 0 {
			break
		}
		body = content.Blocks[0].Body
	}
	if n != 4 {
		fail("transformed %d bodies", n)
	}'''))

seed("c32-path-error-stops", "C32", "ext/include/transformer.go",
'''		incDiags = gohcl.DecodeExpression(pathExpr, t.Ctx, &path)
		diags = append(diags, incDiags...)
		if incDiags.HasErrors() {
			continue
		}
''', '''		incDiags = gohcl.DecodeExpression(pathExpr, nil, &path)
		diags = append(diags, incDiags...)
		if incDiags.HasErrors() {
			incDiags = gohcl.DecodeExpression(pathExpr, t.Ctx, &path)
			if incDiags.HasErrors() {
				continue
			}
			diags = nil
		}
''', "an include path that refers to a variable after another include block with an error",
"Errors of earlier include blocks are lost when a later include path refers to a variable.",
prog("hcl hclsyntax include cty", '''	f, _ := hclsyntax.ParseConfig([]byte("include {\\n  path = \\"nope\\"\\n}\\ninclude {\\n  path = v\\n}\\n"), "", ''' + POS + ''')
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"v": cty.StringVal("ok")}}
	tr := include.Transformer("include", ctx, include.MapResolver(map[string]hcl.Body{"ok": hcl.EmptyBody()}))
	_, diags := tr.TransformBody(f.Body).Content(&hcl.BodySchema{})
	if !diags.HasErrors() {
		fail("no error")
	}'''))

seed("c33-any-in-tuple", "C33", "ext/typeexpr/get_type.go",
'''			ety, elemDiags := getType(defExpr, constraint)
''', '''			ety, elemDiags := getType(defExpr, true)
''', "the keyword any inside of a tuple type where an exact type is required",
"The keyword any is accepted inside of tuple types where an exact type is required.",
prog("hcl hclsyntax typeexpr", '''	e, _ := hclsyntax.ParseExpression([]byte("tuple([string, any])"), "", ''' + POS + ''')
	if _, diags := typeexpr.Type(e); !diags.HasErrors() {
		fail("accepted")
	}'''))


seed("c36-overlap-reversed", "C36", "hcl/pos.go",
'''	if r.Start.Byte > other.Start.Byte {
		start = r.Start
	} else {
		start = other.Start
	}
	if r.End.Byte < other.End.Byte {
		end = r.End
	} else {
		end = other.End
	}

	return Range{
		Filename: r.Filename,
''', '''	if r.Start.Byte > other.Start.Byte {
		start = r.Start
	} else {
		start = other.Start
	}
	if r.End.Line < other.End.Line || (r.End.Line == other.End.Line && r.End.Column < other.End.Column) {
		end = r.End
	} else {
		end = other.End
	}

	return Range{
		Filename: r.Filename,
''', "ranges whose ends have bytes but equal or missing line and column numbers",
"The overlap of two ranges ends at the later one of their ends if their line and column numbers are equal.",
prog("hcl", '''	a := hcl.Range{Start: hcl.Pos{Byte: 0}, End: hcl.Pos{Byte: 5}}
	b := hcl.Range{Start: hcl.Pos{Byte: 2}, End: hcl.Pos{Byte: 9}}
	if got := a.Overlap(b); got.End.Byte != 5 {
		fail("got %#v", got)
	}'''))

seed("c37-context-only", "C37", "hcl/diagnostic_text.go",
'''			snipRange = RangeOver(snipRange, *diag.Context)
''', '''			snipRange = *diag.Context
''', "a diagnostic whose context does not include its subject",
"The line of the subject of a diagnostic is not shown if it is not within the context.",
prog("hcl bytes", '''	var buf bytes.Buffer
	files := map[string]*hcl.File{"f": {Bytes: []byte("one\\ntwo\\n")}}
	w := hcl.NewDiagnosticTextWriter(&buf, files, 0, false)
	w.WriteDiagnostic(&hcl.Diagnostic{
		Severity: hcl.DiagError,
		Summary:  "s",
		Subject:  &hcl.Range{Filename: "f", Start: hcl.Pos{Line: 1, Column: 1, Byte: 0}, End: hcl.Pos{Line: 1, Column: 4, Byte: 3}},
		Context:  &hcl.Range{Filename: "f", Start: hcl.Pos{Line: 2, Column: 1, Byte: 4}, End: hcl.Pos{Line: 2, Column: 4, Byte: 7}},
	})
	if !bytes.Contains(buf.Bytes(), []byte("one")) {
		fail("got %q", buf.String())
	}'''))

seed("c38-join-alias", "C38", "hcl/traversal.go",
'''	ret := make(Traversal, len(abs)+len(rel))
	copy(ret, abs)
	copy(ret[len(abs):], rel)
	return ret
}

// TraverseRel''', '''	return append(abs, rel...)
}

// TraverseRel''', "joining a relative traversal to the beginning of a longer traversal",
"Joining a traversal to the root of another one overwrites the steps of that other traversal.",
prog("hcl", '''	t := hcl.Traversal{hcl.TraverseRoot{Name: "a"}, hcl.TraverseAttr{Name: "b"}}
	s := t.SimpleSplit()
	hcl.TraversalJoin(s.Abs, hcl.Traversal{hcl.TraverseAttr{Name: "c"}})
	if t[1].(hcl.TraverseAttr).Name != "b" {
		fail("got %#v", t)
	}'''))

seed("c39-function-scope", "C39", "hcl/hclsyntax/expression.go",
'''		if exists {
			break
		}
		thisCtx = thisCtx.Parent()
	}

	if !exists {
		if !hasNonNilMap {
''', '''		if exists || len(thisCtx.Functions) > 0 {
			break
		}
		thisCtx = thisCtx.Parent()
	}

	if !exists {
		if !hasNonNilMap {
''', "a call of a function of an outer scope from a scope that has functions of its own",
"Functions of an outer scope are not found from a scope that defines other functions.",
prog("hcl hclsyntax cty function", '''	mk := func(n string) function.Function {
		return function.New(&function.Spec{
			Type: function.StaticReturnType(cty.String),
			Impl: func(args []cty.Value, retType cty.Type) (cty.Value, error) { return cty.StringVal(n), nil },
		})
	}
	root := &hcl.EvalContext{Functions: map[string]function.Function{"f": mk("f")}}
	child := root.NewChild()
	child.Functions = map[string]function.Function{"g": mk("g")}
	e, _ := hclsyntax.ParseExpression([]byte("f()"), "", ''' + POS + ''')
	if _, diags := e.Value(child); diags.HasErrors() {
		fail("%s", diags)
	}'''))

seed("c40-invalid-not-cached", "C40", "hclparse/parser.go",
'''	file, diags := hclsyntax.ParseConfig(src, filename, hcl.Pos{Byte: 0, Line: 1, Column: 1})
	p.files[filename] = file
''', '''	file, diags := hclsyntax.ParseConfig(src, filename, hcl.Pos{Byte: 0, Line: 1, Column: 1})
	if !diags.HasErrors() {
		p.files[filename] = file
	}
''', "a native syntax file with errors that is loaded",
"Files with errors are not recorded, so that they are parsed again and their source is not available for diagnostics.",
prog("hclparse", '''	p := hclparse.NewParser()
	a, _ := p.ParseHCL([]byte("a = \\n"), "f")
	b, _ := p.ParseHCL([]byte("a = \\n"), "f")
	if a != b || p.Sources()["f"] == nil {
		fail("not recorded")
	}'''))

seed("c43-gob-default", "C43", "hcldec/gob.go",
'''	gob.Register((*DefaultSpec)(nil))
''', '''	gob.RegisterName("hcldec.DefaultSpec", DefaultSpec{})
''', "a spec with a default that is sent with gob",
"A default spec comes out of gob as a value that is not a spec, so that decoding fails.",
prog("hcldec cty encoding/gob bytes", '''	var buf bytes.Buffer
	var spec hcldec.Spec = hcldec.ObjectSpec{"a": &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "a", Type: cty.String}, Default: &hcldec.AttrSpec{Name: "b", Type: cty.String}}}
	if err := gob.NewEncoder(&buf).Encode(&spec); err != nil {
		fail("%s", err)
	}
	var got hcldec.Spec
	if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
		fail("%s", err)
	}
	if _, ok := got.(hcldec.ObjectSpec)["a"].(*hcldec.DefaultSpec); !ok {
		fail("got %#v", got)
	}'''))

seed("c44-exit-order", "C44", "hcl/hclsyntax/walk.go",
'''	diags := w.Enter(node)
	node.walkChildNodes(func(node Node) {
		diags = append(diags, Walk(node, w)...)
	})
	moreDiags := w.Exit(node)
''', '''	diags := w.Enter(node)
	if diags.HasErrors() {
		return diags
	}
	node.walkChildNodes(func(node Node) {
		diags = append(diags, Walk(node, w)...)
	})
	moreDiags := w.Exit(node)
''', "a walker that returns an error when it enters a node",
"Nodes below one for which an error was reported are not visited, and that node is never left.",
prog("hcl hclsyntax", '''	e, _ := hclsyntax.ParseExpression([]byte("a + b"), "", ''' + POS + ''')
	w := &wk{}
	hclsyntax.Walk(e, w)
	if w.in != 3 || w.out != 3 {
		fail("entered %d and left %d nodes", w.in, w.out)
	}''', '''
type wk struct{ in, out int }

func (w *wk) Enter(n hclsyntax.Node) hcl.Diagnostics {
	w.in++
	return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "x"}}
}

func (w *wk) Exit(n hclsyntax.Node) hcl.Diagnostics {
	w.out++
	return nil
}
'''))

seed("c35-nested-attribute", "C35", "hcl/hclsyntax/structure_at_pos.go",
'''	searchBody := b
	_, block := b.blocksAtPos(pos, false)
	if block != nil {
		searchBody = block.Body
	}
''', '''	searchBody := b
	block := b.outermostBlockAtPos(pos)
	for block != nil && block.OpenBraceRange.Start.Line != block.CloseBraceRange.Start.Line {
		searchBody = block.Body
		block = searchBody.outermostBlockAtPos(pos)
	}
''', "a position inside of an attribute of a block that is written on a single line",
"No attribute or expression is found at positions inside of a block that is written on a single line.",
prog("hcl hclsyntax", '''	f, _ := hclsyntax.ParseConfig([]byte("b { a = 1 }\\n"), "", ''' + POS + ''')
	if f.AttributeAtPos(hcl.Pos{Line: 1, Column: 9, Byte: 8}) == nil {
		fail("no attribute found")
	}'''))

seed("c28-short-ranges", "C28", "hclpack/positions_packed.go",
'''	if idx < 0 || idx >= len(rps) {
		return hcl.Range{} // out of bounds, so invalid
	}
	return rps[idx].Unpack(fns, poss)
''', '''	if len(rps) == 0 {
		return hcl.Range{} // no source ranges are available
	}
	return rps[idx].Unpack(fns, poss)
''', "packed data with fewer source ranges than an item should have",
"Unmarshalling packed data panics if an item has some of its source ranges only.",
prog("hclpack encoding/json", '''	var b hclpack.Body
	json.Unmarshal([]byte(`{"r":{"a":{"x":{"s":"1","r":"AAAA"}}}}`), &b)
	json.Unmarshal([]byte(`{"r":{"a":{"x":{"s":"1","r":"AgQ"}}},"s":["f"],"p":"AgIA"}`), &b)'''))

SH = '''#!/bin/bash
# Builds and runs the command in a scratch directory.
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export GOFLAGS=-mod=readonly GOPROXY=off
for c in %s; do go build -o "$w/$c" ./cmd/$c || exit 2; done
cd "$w" || exit 2
%s'''

seed("c41-nulls-in-lists", "C41", "cmd/hcldec/main.go",
'''	case []interface{}:
		for i, ev := range tv {
			tv[i] = stripNullMapElements(ev)
		}
		return v
''', '''	case []interface{}:
		ret := make([]interface{}, 0, len(tv))
		for _, ev := range tv {
			if ev != nil {
				ret = append(ret, stripNullMapElements(ev))
			}
		}
		return ret
''', "a result with a null element in a list or tuple",
"Null elements of lists are removed from the output, which moves the elements after them.",
SH % ("hcldec", '''cat > spec <<'E'
attr {
  name = "a"
  type = list(string)
}
E
got=$(echo 'a = ["x", null, "y"]' | ./hcldec --spec=spec)
[ "$got" = '["x",null,"y"]' ] || { echo "$got"; exit 1; }
'''))

seed("c42-unchanged-silent", "C42", "cmd/hclfmt/main.go",
'''	if !bytes.Equal(inSrc, outSrc) {
		changed = append(changed, fn)
	}
''', '''	if bytes.Equal(inSrc, outSrc) {
		return nil // nothing to do
	}
	changed = append(changed, fn)
''', "formatting a source to standard output that is formatted already",
"Nothing is printed for a source that is in canonical format already.",
SH % ("hclfmt", '''got=$(echo 'a = 1' | ./hclfmt)
[ "$got" = 'a = 1' ] || { echo "$got"; exit 1; }
'''))


seed("c21-blank-line-spaces", "C21", "hclwrite/format.go",
'''			// Never place spaces before a newline
			line.lead[0].SpacesBefore = 0
			continue
''', '''			// Never place spaces before a newline
			continue
''', "a line that consists of spaces only",
"Formatting keeps the spaces of lines that are otherwise empty.",
prog("hclwrite", '''	if got := string(hclwrite.Format([]byte("a = 1\\n   \\nb = 1\\n"))); got != "a = 1\\n\\nb = 1\\n" {
		fail("got %q", got)
	}'''))

seed("c25-remain-attributes-errors", "C25", "gohcl/decode.go",
'''			attrs, attrsDiags := leftovers.JustAttributes()
			if len(attrsDiags) > 0 {
				diags = append(diags, attrsDiags...)
			}
			fieldV.Set(reflect.ValueOf(attrs))
''', '''			attrs, attrsDiags := leftovers.JustAttributes()
			if attrs == nil {
				diags = append(diags, attrsDiags...)
			}
			fieldV.Set(reflect.ValueOf(attrs))
''', "a block that remains for a field that takes the remaining attributes",
"A block that is not allowed is not reported if the remaining body is decoded as attributes.",
prog("hcl hclsyntax gohcl", '''	var v struct {
		R hcl.Attributes `hcl:",remain"`
	}
	f, _ := hclsyntax.ParseConfig([]byte("a = 1\\nb {\\n}\\n"), "", ''' + POS + ''')
	diags := gohcl.DecodeBody(f.Body, nil, &v)
	if !diags.HasErrors() {
		fail("no error")
	}'''))

seed("c34-empty-variadic", "C34", "ext/userfunc/decode.go",
'''			if spec.VarParam != nil {
''', '''			if len(args) > len(params) {
''', "a call of a function with a variadic parameter that gives no variadic arguments",
"The variadic parameter is not defined if there are no arguments for it.",
prog("hcl hclsyntax userfunc cty", '''	src := "function \\"f\\" {\\n  params = [a]\\n  variadic_param = b\\n  result = [a, b]\\n}\\n"
	f, _ := hclsyntax.ParseConfig([]byte(src), "", ''' + POS + ''')
	funcs, _, _ := userfunc.DecodeUserFunctions(f.Body, "function", nil)
	v, err := funcs["f"].Call([]cty.Value{cty.True})
	if err != nil || !v.RawEquals(cty.TupleVal([]cty.Value{cty.True, cty.EmptyTupleVal})) {
		fail("%#v %s", v, err)
	}'''))

seed("c45-parent-variable", "C45", "hcltest/mock.go",
'''	for ctx != nil {
		if val, ok := ctx.Variables[name]; ok {
			return val, nil
		}
		ctx = ctx.Parent()
	}
''', '''	if ctx != nil {
		if val, ok := ctx.Variables[name]; ok {
			return val, nil
		}
	}
''', "a mock variable expression that is evaluated in a child scope",
"A mock variable expression does not see the variables of the parent scopes.",
prog("hcl hcltest cty", '''	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"a": cty.True}}
	v, diags := hcltest.MockExprVariable("a").Value(ctx.NewChild())
	if diags.HasErrors() || !v.RawEquals(cty.True) {
		fail("%#v %s", v, diags)
	}'''))

seed("c01-recover-seq-end", "C01", "hcl/hclsyntax/parser.go",
'''		case TokenTemplateSeqEnd:
			for len(open) > 0 && open[len(open)-1] != TokenTemplateInterp && open[len(open)-1] != TokenTemplateControl {
				open = open[:len(open)-1]
			}
			if len(open) > 0 {
				open = open[:len(open)-1]
			}

		}
	}
}
''', '''		case TokenTemplateSeqEnd:
			for open[len(open)-1] != TokenTemplateInterp && open[len(open)-1] != TokenTemplateControl {
				open = open[:len(open)-1]
			}
			open = open[:len(open)-1]

		}
	}
}
''', "an end of a template sequence in an invalid item where none is open",
"Error recovery after an invalid item panics when it meets the end of a template sequence and none is open.",
prog("hcl hclsyntax", '''	f, _ := hclsyntax.ParseConfig([]byte("a~}\\nb = 1\\n"), "", ''' + POS + ''')
	if f == nil || f.Body == nil {
		fail("no body")
	}'''))

seed("c46-json-not-run", "C46", "cmd/hclspecsuite/runner.go",
'''	if _, err := os.Stat(jsonFilename); err == nil {
''', '''	if _, err := os.Stat(jsonFilename); err == nil && len(tf.ExpectedDiags) == 0 {
''', "a test with expected diagnostics and a JSON input that does not produce them",
"The JSON input of a test with expected diagnostics is not run, so that the suite passes although the input gives other results.",
SH % ("hclspecsuite hcldec", '''mkdir t
cat > t/a.t <<'E'
diagnostics {
  error {
    from {
      line   = 1
      column = 1
      byte   = 0
    }
    to {
      line   = 1
      column = 2
      byte   = 1
    }
  }
}
E
printf 'literal {\\n  value = true\\n}\\n' > t/a.hcldec
printf 'b = 1\\n' > t/a.hcl
printf '{}' > t/a.hcl.json
if ./hclspecsuite t ./hcldec; then echo passes; exit 1; fi
rm t/a.hcl.json
./hclspecsuite t ./hcldec || { echo fails; exit 2; }
'''))
