package model

import (
	"fmt"

	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

// JProp is one property of a JSON object, identified by its position.
type JProp struct {
	Obj *J
	I   int
}

// Name is the property name.
func (p JProp) Name() string { return p.Obj.Keys[p.I] }

// Val is the property value.
func (p JProp) Val() *J { return p.Obj.L[p.I] }

// JBlock is a block found in a JSON body.
type JBlock struct {
	Type   JProp
	Labels []JProp
	Body   *J
}

// RefJContent is the result of the reference schema application to JSON.
type RefJContent struct {
	Attrs  map[string]JProp
	Blocks []JBlock
	Errs   []string
	// Unsure is set when the specification does not determine whether the
	// body is acceptable.
	Unsure bool
}

// props flattens an object or array of objects into properties.
func (rc *RefJContent) props(j *J, what string) []JProp {
	var ps []JProp
	add := func(o *J) {
		for i := range o.Keys {
			ps = append(ps, JProp{o, i})
		}
	}
	switch j.K {
	case "obj":
		add(j)
	case "arr":
		for _, e := range j.L {
			if e.K == "obj" {
				add(e)
			} else {
				rc.Errs = append(rc.Errs, what+" array element is not an object")
			}
		}
	case "null":
		rc.Unsure = true
	default:
		rc.Errs = append(rc.Errs, what+" is neither object nor array")
	}
	return ps
}

// ApplyJSON is the reference schema application to a JSON body. It extends h
// (attributes and blocks share one namespace) with the names consumed.
func (j *J) ApplyJSON(s Schema, partial bool, h *Hidden) RefJContent {
	rc := RefJContent{Attrs: map[string]JProp{}}
	sb, sa := map[string]SBlock{}, map[string]bool{}
	for _, x := range s.Blocks {
		sb[x.Type] = x
	}
	for _, x := range s.Attrs {
		sa[x.Name] = true
	}
	for _, p := range rc.props(j, "body") {
		n := p.Name()
		if h.Attrs[n] || h.Blocks[n] {
			continue
		}
		if sa[n] {
			if _, dup := rc.Attrs[n]; dup {
				rc.Errs = append(rc.Errs, "duplicate attribute "+n)
				continue
			}
			rc.Attrs[n] = p
			continue
		}
		if b, ok := sb[n]; ok {
			rc.unpack(p, p.Val(), b.Labels, nil)
			continue
		}
		if !partial && n != "//" {
			rc.Errs = append(rc.Errs, "unsupported property "+n)
		}
	}
	for _, x := range s.Attrs {
		if _, ok := rc.Attrs[x.Name]; x.Req && !ok {
			rc.Errs = append(rc.Errs, "missing attribute "+x.Name)
		}
		h.Attrs[x.Name] = true
	}
	for _, x := range s.Blocks {
		h.Blocks[x.Type] = true
	}
	return rc
}

func (rc *RefJContent) unpack(ty JProp, v *J, left int, labels []JProp) {
	if left > 0 {
		ps := rc.props(v, fmt.Sprintf("label level of %s", ty.Name()))
		if len(ps) == 0 {
			rc.Unsure = true
		}
		for _, p := range ps {
			rc.unpack(ty, p.Val(), left-1, append(labels[:len(labels):len(labels)], p))
		}
		return
	}
	switch v.K {
	case "null":
	case "obj":
		rc.Blocks = append(rc.Blocks, JBlock{ty, labels, v})
	case "arr":
		for _, e := range v.L {
			rc.Blocks = append(rc.Blocks, JBlock{ty, labels, e})
		}
	default:
		rc.Errs = append(rc.Errs, "block value of "+ty.Name()+" is neither object nor array")
	}
}

// GenJ draws an arbitrary JSON value whose property names come from keys.
func GenJ(t *rapid.T, keys func(t *rapid.T) string, depth int) *J {
	w := []int{3, 2, 2, 1, 4, 6}
	if depth <= 0 {
		w[4], w[5] = 0, 0
	}
	switch Weighted(t, w...) {
	case 0:
		return JStr(AnyText(t))
	case 1:
		n := JNum(t)
		return &J{K: "num", S: n}
	case 2:
		return &J{K: "bool", S: Pick(t, []string{"true", "false"})}
	case 3:
		return &J{K: "null"}
	case 4:
		j := &J{K: "arr"}
		for i := Count(t, 0, 3); i > 0; i-- {
			j.L = append(j.L, GenJ(t, keys, depth-1))
		}
		return j
	default:
		j := &J{K: "obj"}
		for i := Count(t, 0, 4); i > 0; i-- {
			j.Keys = append(j.Keys, keys(t))
			j.L = append(j.L, GenJ(t, keys, depth-1))
		}
		return j
	}
}

// JNum draws JSON number text.
func JNum(t *rapid.T) string {
	n := Num(t)
	if !jsonNum(n) {
		n = "0." + n
	}
	if Chance(t, 25) {
		n = "-" + n
	}
	return n
}

// Damage replaces one node of a JSON tree by something else, returning a new
// tree that shares the untouched parts.
func (j *J) Damage(t *rapid.T, keys func(t *rapid.T) string) *J {
	if len(j.L) == 0 || Chance(t, 20) {
		return GenJ(t, keys, 2)
	}
	c := *j
	c.L = append([]*J(nil), j.L...)
	i := Int(t, 0, len(c.L)-1, "at")
	c.L[i] = c.L[i].Damage(t, keys)
	return &c
}

// NFC normalises a string the way values are.
func NFC(s string) string { return norm.NFC.String(s) }
