import importlib.util, os
_s = importlib.util.spec_from_file_location("b_helpers", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s)
_b.seed = lambda *a, **k: None
_s.loader.exec_module(_b)
prog, POS, SH = _b.prog, _b.POS, _b.SH

E = "hcl/hclsyntax/expression.go"
T = "hcl/hclsyntax/expression_template.go"
S = "hcldec/spec.go"

def eval_demo(src, ctx, check, imports="hcl hclsyntax cty"):
    return prog(imports, '''	e, diags := hclsyntax.ParseExpression([]byte(%s), "", %s)
	if diags.HasErrors() {
		fail("%%s", diags)
	}
	v, diags := e.Value(%s)
%s''' % (src, POS, ctx, check))

seed("c23-exact-set-count", "C23", S,
'''	} else if s.MaxItems > 0 && len(elems) > s.MaxItems {
		diags = append(diags, &hcl.Diagnostic{
			Severity: hcl.DiagError,
			Summary:  fmt.Sprintf("Too many %s blocks", s.TypeName),
			Detail:   fmt.Sprintf("No more than %d %q blocks are allowed", s.MaxItems, s.TypeName),
			Subject:  &sourceRanges[s.MaxItems],
		})
	}

	var ret cty.Value

	if len(elems) == 0 {
		ret = cty.SetValEmpty''', '''	} else if s.MaxItems > s.MinItems && len(elems) > s.MaxItems {
		diags = append(diags, &hcl.Diagnostic{
			Severity: hcl.DiagError,
			Summary:  fmt.Sprintf("Too many %s blocks", s.TypeName),
			Detail:   fmt.Sprintf("No more than %d %q blocks are allowed", s.MaxItems, s.TypeName),
			Subject:  &sourceRanges[s.MaxItems],
		})
	}

	var ret cty.Value

	if len(elems) == 0 {
		ret = cty.SetValEmpty''',
"a block set whose minimum and maximum are equal", "Too many blocks are accepted for a block set that wants an exact number.",
prog("hcl hclsyntax hcldec cty", '''	f, _ := hclsyntax.ParseConfig([]byte("b {\\n}\\nb {\\n}\\n"), "", ''' + POS + ''')
	_, diags := hcldec.Decode(f.Body, &hcldec.BlockSetSpec{TypeName: "b", MinItems: 1, MaxItems: 1, Nested: &hcldec.AttrSpec{Name: "a", Type: cty.String}}, nil)
	if !diags.HasErrors() {
		fail("accepted")
	}'''))

seed("c23-labelled-block-required", "C23", S,
'''		return cty.NullVal(s.Nested.impliedType()), diags
	}

	if s.Nested == nil {
		panic("BlockSpec with no Nested Spec")''', '''		if len(blockLabels) > 0 {
			diags = nil
		}
		return cty.NullVal(s.Nested.impliedType()), diags
	}

	if s.Nested == nil {
		panic("BlockSpec with no Nested Spec")''',
"a required block that is missing inside of a block with labels", "A missing block is not reported inside of blocks with labels.",
prog("hcl hclsyntax hcldec cty", '''	f, _ := hclsyntax.ParseConfig([]byte("o \\"x\\" {\\n}\\n"), "", ''' + POS + ''')
	_, diags := hcldec.Decode(f.Body, &hcldec.BlockSpec{TypeName: "o", Nested: hcldec.TupleSpec{
		&hcldec.BlockLabelSpec{Index: 0, Name: "one"},
		&hcldec.BlockSpec{TypeName: "b", Required: true, Nested: &hcldec.AttrSpec{Name: "a", Type: cty.String}},
	}}, nil)
	if !diags.HasErrors() {
		fail("accepted")
	}'''))

seed("c04-expand-skips-null", "C04", E,
'''				_, val := it.Element()
				newArgs = append(newArgs, &LiteralValueExpr{
					Val:      val,''', '''				_, val := it.Element()
				if val.IsNull() {
					continue
				}
				newArgs = append(newArgs, &LiteralValueExpr{
					Val:      val,''',
"a call that expands a collection with a null element", "Null elements are left out of the arguments given by an expanded collection.",
eval_demo("`f([1, null]...)`", '''&hcl.EvalContext{Functions: map[string]function.Function{"f": function.New(&function.Spec{
		VarParam: &function.Parameter{Type: cty.DynamicPseudoType, AllowNull: true, AllowDynamicType: true},
		Type:     function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.NumberIntVal(int64(len(args))), nil
		},
	})}}''', '''	if diags.HasErrors() || !v.RawEquals(cty.NumberIntVal(2)) {
		fail("got %#v", v)
	}''', "hcl hclsyntax cty function"))

seed("c05-large-group-order", "C05", E,
'''				k := key.AsString()
				groupVals[k] = append(groupVals[k], val)''', '''				k := key.AsString()
				if n := len(groupVals[k]); n > 4 {
					groupVals[k] = append([]cty.Value{val}, groupVals[k]...)
					continue
				}
				groupVals[k] = append(groupVals[k], val)''',
"a for expression that groups more than five values under one key", "The values of large groups change their order.",
eval_demo("`{for v in [1, 2, 3, 4, 5, 6] : \"k\" => v...}`", "nil", '''	if diags.HasErrors() || !v.GetAttr("k").Index(cty.NumberIntVal(0)).RawEquals(cty.NumberIntVal(1)) {
		fail("got %#v", v)
	}'''))

seed("c08-template-loop-unknown", "C08", T,
'''		if !val.IsKnown() {
			return cty.UnknownVal(cty.String), diags
		}

		buf.WriteString(strVal''', '''		if !val.IsKnown() {
			continue
		}

		buf.WriteString(strVal''',
"a template loop over a collection with an unknown element", "The text of unknown elements is left out of the result, which is reported as known.",
eval_demo("`\"%{for v in [1, u]}${v}%{endfor}\"`", '&hcl.EvalContext{Variables: map[string]cty.Value{"u": cty.UnknownVal(cty.String)}}', '''	if diags.HasErrors() || v.IsKnown() {
		fail("got %#v", v)
	}'''))

seed("c24-extra-label-variables", "C24", S,
'''		if childBlock.Type != s.TypeName {
			continue
		}

		ret = append(ret, Variables(childBlock.Body, s.Nested)...)
	}

	return ret
}

func (s *BlockMapSpec) decode''', '''		if childBlock.Type != s.TypeName || len(childBlock.Labels) > len(s.LabelNames) {
			continue
		}

		ret = append(ret, Variables(childBlock.Body, s.Nested)...)
	}

	return ret
}

func (s *BlockMapSpec) decode''',
"a block map whose nested specification uses a label of its own", "References in blocks of a block map that have further labels are not reported.",
prog("hcl hclsyntax hcldec cty", '''	f, _ := hclsyntax.ParseConfig([]byte("b \\"x\\" \\"y\\" {\\n  a = r\\n}\\n"), "", ''' + POS + ''')
	vars := hcldec.Variables(f.Body, &hcldec.BlockMapSpec{TypeName: "b", LabelNames: []string{"k"}, Nested: hcldec.TupleSpec{
		&hcldec.BlockLabelSpec{Index: 0, Name: "l"},
		&hcldec.AttrSpec{Name: "a", Type: cty.String},
	}})
	if len(vars) != 1 {
		fail("%d variables", len(vars))
	}'''))
