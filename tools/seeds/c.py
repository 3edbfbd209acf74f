import importlib.util, os
_s = importlib.util.spec_from_file_location("b_helpers", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s)
_b.seed = lambda *a, **k: None
_s.loader.exec_module(_b)
prog, POS, SH = _b.prog, _b.POS, _b.SH

E = "hcl/hclsyntax/expression.go"

def eval_demo(src, ctx, check, imports="hcl hclsyntax cty"):
    return prog(imports, '''	e, diags := hclsyntax.ParseExpression([]byte(%s), "", %s)
	if diags.HasErrors() {
		fail("%%s", diags)
	}
	v, diags := e.Value(%s)
%s''' % (src, POS, ctx, check))

seed("c04-first-key-wins", "C04", E,
"		keyStr := key.AsString()\n\n		vals[keyStr] = val", "		keyStr := key.AsString()\n\n		if _, exists := vals[keyStr]; !exists {\n			vals[keyStr] = val\n		}",
"an object constructor that repeats a key", "The first of several values for the same key of an object constructor is used rather than the last.",
eval_demo("`{a = 1, a = 2}`", "nil", '''	if diags.HasErrors() || !v.GetAttr("a").RawEquals(cty.NumberIntVal(2)) {
		fail("got %#v", v)
	}'''))

seed("c08-unknown-condition-null", "C08", E,
"	if !condResult.IsKnown() {\n		return cty.UnknownVal(resultType), diags", "	if !condResult.IsKnown() {\n		if falseResult.IsNull() {\n			return trueResult, diags\n		}\n		return cty.UnknownVal(resultType), diags",
"a conditional with an unknown condition and null as its second result", "A conditional whose condition is unknown is decided when its second result is null.",
eval_demo("`c ? \"a\" : null`", '&hcl.EvalContext{Variables: map[string]cty.Value{"c": cty.UnknownVal(cty.Bool)}}', '''	if diags.HasErrors() || v.IsKnown() {
		fail("got %#v", v)
	}'''))

seed("c08-grouping-unknown-key", "C08", E,
"			if !keyRaw.IsKnown() {\n				known = false\n				continue", "			if !keyRaw.IsKnown() {\n				known = known && e.Group\n				continue",
"an object for expression in grouping mode with an unknown key", "Items with unknown keys are silently left out of a grouping for expression.",
eval_demo("`{for k in [\"a\", u]: k => 1...}`", '&hcl.EvalContext{Variables: map[string]cty.Value{"u": cty.UnknownVal(cty.String)}}', '''	if diags.HasErrors() || v.IsKnown() {
		fail("got %#v", v)
	}'''))

seed("c05-group-repeats", "C05", E,
"				groupVals[k] = append(groupVals[k], val)", "				if n := len(groupVals[k]); n == 0 || !groupVals[k][n-1].RawEquals(val) {\n					groupVals[k] = append(groupVals[k], val)\n				}",
"a grouping for expression with equal consecutive values for one key", "Equal consecutive values of a group are collapsed into one.",
eval_demo("`{for k in [1, 1, 2]: \"k\" => k...}`", "nil", '''	_ = cty.True
	if diags.HasErrors() || v.GetAttr("k").LengthInt() != 3 {
		fail("got %#v", v)
	}'''))

seed("c39-null-shadow", "C39", "hcl/traversal.go",
"		if exists {\n			return split.Rel", "		if exists && (thisCtx.parent == nil || !val.IsNull()) {\n			return split.Rel",
"a variable of an inner scope that is null and hides one of an outer scope", "A null variable of an inner scope does not hide the one of the outer scope.",
prog("hcl hclsyntax cty", '''	e, _ := hclsyntax.ParseExpression([]byte("a"), "", ''' + POS + ''')
	outer := &hcl.EvalContext{Variables: map[string]cty.Value{"a": cty.True}}
	inner := outer.NewChild()
	inner.Variables = map[string]cty.Value{"a": cty.NullVal(cty.Bool)}
	v, diags := e.Value(inner)
	if diags.HasErrors() || !v.IsNull() {
		fail("got %#v", v)
	}'''))

seed("c14-remainder-after-error", "C14", "hcl/merged.go",
"		if thisLeftovers != nil {", "		if thisLeftovers != nil && !thisDiags.HasErrors() {",
"a merged body of which one part has a problem, decoded partially", "What remains of a part of a merged body is lost when that part had a problem.",
prog("hcl hclsyntax", '''	a, _ := hclsyntax.ParseConfig([]byte("b \\"x\\" {\\n}\\nrest = 1\\n"), "a", ''' + POS + ''')
	b, _ := hclsyntax.ParseConfig([]byte("other = 1\\n"), "b", ''' + POS + ''')
	_, remain, _ := hcl.MergeFiles([]*hcl.File{a, b}).PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}})
	attrs, _ := remain.JustAttributes()
	if len(attrs) != 2 {
		fail("%d attributes left", len(attrs))
	}'''))

seed("c13-native-taken-stops", "C13", "hcl/hclsyntax/structure.go",
"""		if _, hidden := hiddenBlocks[block.Type]; hidden {
			continue
		}
		blockS, wanted""", """		if _, hidden := hiddenBlocks[block.Type]; hidden {
			if len(block.Labels) > 1 {
				break
			}
			continue
		}
		blockS, wanted""", "a remainder in which a block with two labels that is already taken comes before one that was not", "Blocks that follow a block with two labels taken by an earlier partial decode are lost.",
prog("hcl hclsyntax", '''	f, _ := hclsyntax.ParseConfig([]byte("a \\"x\\" \\"y\\" {\\n}\\nb {\\n}\\n"), "", ''' + POS + ''')
	_, remain, _ := f.Body.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "a", LabelNames: []string{"n", "m"}}}})
	c, _ := remain.Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}})
	if len(c.Blocks) != 1 {
		fail("%d blocks", len(c.Blocks))
	}'''))

seed("c19-rename-whole", "C19", "hclwrite/ast_expression.go",
"		if len(traversal.steps) < len(search) {", "		if len(traversal.steps) <= len(search) && len(search) > 1 {",
"a reference of several steps that is renamed as a whole", "Renaming a prefix of references leaves those alone that consist of just the prefix.",
prog("hcl hclwrite", '''	f, _ := hclwrite.ParseConfig([]byte("a = foo.bar\\n"), "", ''' + POS + ''')
	f.Body().GetAttribute("a").Expr().RenameVariablePrefix([]string{"foo", "bar"}, []string{"new", "name"})
	if got := string(f.Bytes()); got != "a = new.name\\n" {
		fail("got %q", got)
	}'''))

seed("c24-string-first-reference", "C24", "hcldec/spec.go",
"	return attr.Expr.Variables()", "	if s.Type == cty.String {\n		if len(attr.Expr.Variables()) > 1 {\n			return attr.Expr.Variables()[:1]\n		}\n	}\n	return attr.Expr.Variables()",
"a string argument that refers to more than one variable", "Only the first variable of a string argument is reported.",
prog("hcl hclsyntax hcldec cty", '''	f, _ := hclsyntax.ParseConfig([]byte("a = \\"${x}${y}\\"\\n"), "", ''' + POS + ''')
	vars := hcldec.Variables(f.Body, &hcldec.AttrSpec{Name: "a", Type: cty.String})
	if len(vars) != 2 {
		fail("%d variables", len(vars))
	}'''))

seed("c23-label-index-gap", "C23", "hcldec/spec.go",
"			if maxIdx < ls.Index {\n				maxIdx = ls.Index", "			if maxIdx < 0 || maxIdx < ls.Index-1 {\n				maxIdx = ls.Index",
"a block specification that uses its second label after its first", "Blocks with two labels are refused because only one is expected.",
prog("hcl hclsyntax hcldec", '''	f, _ := hclsyntax.ParseConfig([]byte("b \\"x\\" \\"y\\" {\\n}\\n"), "", ''' + POS + ''')
	_, diags := hcldec.Decode(f.Body, &hcldec.BlockSpec{TypeName: "b", Nested: hcldec.TupleSpec{
		&hcldec.BlockLabelSpec{Index: 0, Name: "one"}, &hcldec.BlockLabelSpec{Index: 1, Name: "two"},
	}}, nil)
	if diags.HasErrors() {
		fail("%s", diags)
	}'''))

seed("c25-absent-block-kept", "C25", "gohcl/decode.go",
"				val.Field(fieldIdx).Set(reflect.Zero(field.Type))", "				_ = field",
"decoding a body without blocks of a type into a struct that holds some already", "Blocks of a struct that was used before are kept when the new body has none.",
prog("hcl hclsyntax gohcl", '''	type inner struct{}
	var s struct {
		B []inner `hcl:"b,block"`
	}
	s.B = make([]inner, 2)
	f, _ := hclsyntax.ParseConfig([]byte(""), "", ''' + POS + ''')
	if diags := gohcl.DecodeBody(f.Body, nil, &s); diags.HasErrors() || len(s.B) != 0 {
		fail("%d blocks", len(s.B))
	}'''))

seed("c25-slice-not-required", "C25", "gohcl/schema.go",
"		case field.Type.Kind() != reflect.Ptr && !optional:", "		case field.Type.Kind() != reflect.Ptr && field.Type.Kind() != reflect.Slice && !optional:",
"a required argument of a list type that is missing", "Arguments decoded into slices are not required.",
prog("hcl hclsyntax gohcl", '''	var s struct {
		A []string `hcl:"a"`
	}
	f, _ := hclsyntax.ParseConfig([]byte(""), "", ''' + POS + ''')
	if diags := gohcl.DecodeBody(f.Body, nil, &s); !diags.HasErrors() {
		fail("accepted")
	}'''))

seed("c26-many-blocks", "C26", "gohcl/encode.go",
"				l := fieldVal.Len()", "				l := fieldVal.Len()\n				if l > 3 {\n					l = 3\n				}",
"a slice of more than three blocks", "Only the first three blocks of a slice are written.",
prog("gohcl hclwrite", '''	type inner struct {
		A int `hcl:"a"`
	}
	var s struct {
		B []inner `hcl:"b,block"`
	}
	s.B = make([]inner, 4)
	f := hclwrite.NewEmptyFile()
	gohcl.EncodeIntoBody(&s, f.Body())
	if n := len(f.Body().Blocks()); n != 4 {
		fail("%d blocks", n)
	}'''))
