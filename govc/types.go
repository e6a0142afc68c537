package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

type tsubst map[*types.TypeParam]types.Type

// subst replaces type parameters in t.
func substType(t types.Type, s tsubst) types.Type {
	if len(s) == 0 || t == nil {
		return t
	}
	switch t := t.(type) {
	case *types.Alias:
		return substType(types.Unalias(t), s)
	case *types.TypeParam:
		if r, ok := s[t]; ok {
			return r
		}
		return t
	case *types.Pointer:
		return types.NewPointer(substType(t.Elem(), s))
	case *types.Slice:
		return types.NewSlice(substType(t.Elem(), s))
	case *types.Array:
		return types.NewArray(substType(t.Elem(), s), t.Len())
	case *types.Map:
		return types.NewMap(substType(t.Key(), s), substType(t.Elem(), s))
	case *types.Chan:
		return types.NewChan(t.Dir(), substType(t.Elem(), s))
	case *types.Named:
		if t.TypeArgs() == nil || t.TypeArgs().Len() == 0 {
			return t
		}
		var args []types.Type
		ch := false
		for i := 0; i < t.TypeArgs().Len(); i++ {
			a := t.TypeArgs().At(i)
			b := substType(a, s)
			if a != b {
				ch = true
			}
			args = append(args, b)
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(typesCtx, t.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Signature:
		var ps, rs []*types.Var
		for i := 0; i < t.Params().Len(); i++ {
			v := t.Params().At(i)
			ps = append(ps, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), s)))
		}
		for i := 0; i < t.Results().Len(); i++ {
			v := t.Results().At(i)
			rs = append(rs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), s)))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), t.Variadic())
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < t.NumFields(); i++ {
			v := t.Field(i)
			fs = append(fs, types.NewField(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), s), v.Embedded()))
			tags = append(tags, t.Tag(i))
		}
		return types.NewStruct(fs, tags)
	case *types.Tuple:
		var ps []*types.Var
		for i := 0; i < t.Len(); i++ {
			v := t.At(i)
			ps = append(ps, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), s)))
		}
		return types.NewTuple(ps...)
	}
	return t
}

var typesCtx = types.NewContext()

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func qual(p *types.Package) string { return p.Name() }

// typeKey is a canonical textual name of a type.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(t, qual)
	for _, r := range typeKeyNorm {
		s = r.re.ReplaceAllString(s, r.to)
		s = r.re.ReplaceAllString(s, r.to)
	}
	typeKeyCache[t] = s
	return s
}

var typeKeyCache = map[types.Type]string{}
var typeKeyNorm = []struct {
	re *regexp.Regexp
	to string
}{
	{regexp.MustCompile(`(^|[^\w.])byte($|\W)`), "${1}uint8${2}"},
	{regexp.MustCompile(`(^|[^\w.])rune($|\W)`), "${1}int32${2}"},
	{regexp.MustCompile(`(^|[^\w.])any($|\W)`), "${1}interface{}${2}"},
}

func originKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Name() + "." + o.Name()
		}
		return o.Name()
	}
	return typeKey(t)
}

var repoPkgs = map[*types.Package]bool{}

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/aws/go-kafka-event-source/")
}

// opaqueStruct: external struct types whose representation is hidden.
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if isRepoPkg(n.Obj().Pkg()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			if strings.Contains(p.Path(), "aws-sdk-go-v2/service") && st.Field(i).Name() == "noSmithyDocumentSerde" || st.Field(i).Name() == "_" && n.Obj().Name() == "Auth" {
				continue // an empty marker struct
			}
			return typeKey(t) != "kgo.Record" && typeKey(t) != "kgo.FetchPartition"
		}
	}
	return false
}

// identityStruct: struct types whose address matters (locks etc.) are always sub-objects.
func identityStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "bytes")
}

// subObject reports whether a field of this type is a separate sub-object.
func subObject(t types.Type) bool {
	if identityStruct(t) {
		return true
	}
	if opaqueStruct(t) {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.TypeParam:
		return mkSort("TP_" + u.Obj().Name())
	case *types.Tuple:
		panic("sortOf tuple")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Kind() == types.UnsafePointer:
			return SRef
		case u.Kind() == types.UntypedNil:
			return SRef
		}
		panic("sortOf basic " + u.String())
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Array:
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Interface:
		return SIface
	case *types.Struct:
		if opaqueStruct(t) || identityStruct(t) {
			return mkSort("O_" + sanitize(typeKey(t)))
		}
		n := "S_" + sanitize(typeKey(t))
		s := mkSort(n)
		if s.DT == nil {
			s.DT = &Datatype{Name: n}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				s.DT.Fields = append(s.DT.Fields, DTField{n + "." + f.Name() + fmt.Sprintf("_%d", i), sortOf(f.Type())})
			}
			if u.NumFields() == 0 {
				s.DT.Fields = append(s.DT.Fields, DTField{n + ".unit", SBool})
			}
		}
		return s
	}
	panic("sortOf " + t.String())
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return Const("zero_"+tp.Obj().Name(), sortOf(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return I(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return StrLit("")
		case u.Info()&types.IsFloat != 0:
			return RealLit("0.0")
		}
		return Nil
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return Nil
	case *types.Slice:
		return NilSlice
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Interface:
		return INil
	case *types.Struct:
		s := sortOf(t)
		if s.DT == nil {
			return Const("zero_"+s.Name, s)
		}
		if u.NumFields() == 0 {
			return Mk(s, True)
		}
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		return Mk(s, args...)
	}
	panic("zeroOf " + t.String())
}

// String literals
func StrLit(s string) *Term {
	name := "str:" + sanitize(trunc(s, 20))
	if s == "" {
		name = "str:"
	} else {
		name = fmt.Sprintf("%s#%x", name, hash(s))
	}
	t := Const(name, SStr)
	if t.meta == nil {
		t.meta = &strMeta{s}
		addAxiom(name, "len", func() *Term { return Eq(App("slen", SInt, t), I(int64(len(s)))) })
		if len(s) <= 16 {
			for i := 0; i < len(s); i++ {
				i := i
				addAxiom("schars", name+fmt.Sprint(i), func() *Term { return True })
				addAxiom(name, fmt.Sprintf("c%d", i), func() *Term {
					return Eq(Select(App("schars", SByteArr, t), I(int64(i))), I(int64(s[i])))
				})
			}
		}
	}
	return t
}
func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

type intRange struct {
	lo, hi *big.Int
	bits   int
	signed bool
}

func rangeOf(t types.Type) (intRange, bool) {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		_ = tp
		return intRange{}, false
	}
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return intRange{}, false
	}
	mk := func(bits int, signed bool) (intRange, bool) {
		one := big.NewInt(1)
		if signed {
			h := new(big.Int).Lsh(one, uint(bits-1))
			return intRange{new(big.Int).Neg(h), new(big.Int).Sub(h, one), bits, true}, true
		}
		h := new(big.Int).Lsh(one, uint(bits))
		return intRange{new(big.Int), new(big.Int).Sub(h, one), bits, false}, true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return mk(64, true)
	case types.Int32, types.UntypedRune:
		return mk(32, true)
	case types.Int16:
		return mk(16, true)
	case types.Int8:
		return mk(8, true)
	case types.Uint, types.Uint64, types.Uintptr:
		return mk(64, false)
	case types.Uint32:
		return mk(32, false)
	case types.Uint16:
		return mk(16, false)
	case types.Uint8:
		return mk(8, false)
	}
	return intRange{}, false
}

func inRange(x *Term, r intRange) *Term {
	return And(Le(IB(r.lo), x), Le(x, IB(r.hi)))
}

// wrapTo reduces a mathematical integer to the machine range; span bounds how far x may be outside.
func wrapTo(x *Term, r intRange, single bool) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(r.bits))
	if x.Op == OpInt {
		v := new(big.Int).Mod(x.Int, m)
		if r.signed && v.Cmp(r.hi) > 0 {
			v.Sub(v, m)
		}
		return IB(v)
	}
	if single {
		return Ite(Gt(x, IB(r.hi)), Sub(x, IB(m)), Ite(Lt(x, IB(r.lo)), Add(x, IB(m)), x))
	}
	u := EMod(x, IB(m))
	if !r.signed {
		return Ite(inRange(x, r), x, u)
	}
	return Ite(inRange(x, r), x, Ite(Gt(u, IB(r.hi)), Sub(u, IB(m)), u))
}
