package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mutators: external functions that write through an argument (its index;
// a method's receiver is 0).
var mutators = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "(io.Reader).Read": {1}, "io.Reader.Read": {1}, "io.ReadCloser.Read": {1},
	"crypto/rand.Read": {0}, "math/rand.Read": {0},
	"encoding/hex.Encode": {0}, "encoding/hex.Decode": {0},
	"(*encoding/base64.Encoding).Encode": {1}, "(*encoding/base64.Encoding).Decode": {1},
	"encoding/binary.Read": {2}, "encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0},
	"(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint64": {1},
	"(encoding/binary.bigEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint64": {1},
	"encoding/json.Unmarshal": {1}, "(*encoding/json.Decoder).Decode": {0, 1},
	"(*math/big.Int).DivMod": {0, 3}, "(*math/big.Int).QuoRem": {0, 3},
	"net/http.ServeContent": {4}, "io.ReadAll": {0}, "io/ioutil.ReadAll": {0},
	"(*flag.FlagSet).Parse": {0},
	"utf8.EncodeRune":       {0}, "unicode/utf8.EncodeRune": {0},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendQuote": {0}, "strconv.AppendBool": {0}, "strconv.AppendFloat": {0},
	"fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Appendln": {0}, "(time.Time).AppendFormat": {1},
	"container/heap.Push": {0}, "container/heap.Pop": {0},
	"net/http.SetCookie": {0}, "io.Copy": {0, 1}, "io.CopyBuffer": {0, 1, 2}, "io.CopyN": {0, 1}, "io.WriteString": {0},
	"fmt.Fprint": {0}, "fmt.Fprintf": {0}, "fmt.Fprintln": {0},
	"(*net/http.Request).ParseForm": {0}, "(*net/http.Request).ParseMultipartForm": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "slices.Compact": {0}, "slices.Replace": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "maps.Insert": {0},
}

// unsafeTypes: external types whose methods must not run at the same time,
// with the methods that only read.
var unsafeTypes = map[string]string{
	"bytes.Buffer": " String Len Bytes Cap Available ", "strings.Builder": " String Len Cap ", "bytes.Reader": " Len Size ", "strings.Reader": " Len Size ",
	"bufio.Reader": " ", "bufio.Writer": " ", "bufio.ReadWriter": " ", "bufio.Scanner": " ",
	"math/rand.Rand": " ", "math/rand/v2.Rand": " ",
	"net/http.Header": " Get Values Clone Write WriteSubset ", "net/url.Values": " Get Has Encode ", "net/textproto.MIMEHeader": " Get Values ",
	"encoding/json.Encoder": " ", "encoding/json.Decoder": " ", "encoding/gob.Encoder": " ", "encoding/gob.Decoder": " ",
	"encoding/csv.Writer": " ", "encoding/csv.Reader": " ",
	"compress/gzip.Writer": " ", "compress/gzip.Reader": " ", "compress/flate.Writer": " ", "compress/zlib.Writer": " ",
	"math/big.Int": " Sign String Int64 Uint64 Cmp CmpAbs BitLen Bit Bytes FillBytes Text Format Append IsInt64 IsUint64 ProbablyPrime TrailingZeroBits ",
	"hash.Hash":    " Size BlockSize ", "hash.Hash32": " Size BlockSize ", "hash.Hash64": " Size BlockSize ",
	"container/list.List": " Len Front Back ", "container/ring.Ring": " ",
	"crypto/cipher.Stream": " ", "crypto/cipher.BlockMode": " ",
	"mime/multipart.Writer": " ", "mime/multipart.Reader": " ", "text/tabwriter.Writer": " ",
	"io.LimitedReader": " ", "io.SectionReader": " ",
	"net/http.Request": " Cookie Cookies CookiesNamed Context UserAgent Referer WithContext Clone BasicAuth ProtoAtLeast PathValue ",
}

// sharedSafe: interface results and receivers are judged by dynamic type; a
// plain io.Writer of unknown type is taken to be safe (the caller's choice).

func splitMethod(name string) (typ, m string) {
	// "(*pkg.T).M", "(pkg.T).M" or "pkg.I.M" (interfaces)
	if strings.HasPrefix(name, "(") {
		i := strings.LastIndex(name, ").")
		if i < 0 {
			return "", ""
		}
		return strings.TrimPrefix(name[1:i], "*"), name[i+2:]
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return "", ""
	}
	return name[:i], name[i+1:]
}

// external models a call that leaves the module.
func (a *pta) external(fc *pClone, in ssa.Instruction, name string, sig *types.Signature, args []pSet, cc *ssa.CallCommon, phase byte, give func([]pSet)) {
	a.ext[name]++
	typ, m := splitMethod(name)
	arg := func(i int) pSet {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	union := func(ss ...pSet) pSet {
		out := pSet{}
		for _, s := range ss {
			for l := range s {
				out.add(l)
			}
		}
		return out
	}
	written := func(s pSet) {
		for l := range s {
			a.access(fc, in, l, true, "lets "+name+" write to")
			if l.o.kind == 's' {
				a.access(fc, in, pLoc{l.o, "[]"}, true, "lets "+name+" write to")
			}
			if l.o.kind == 'b' {
				for x := range a.cells[pLoc{l.o, "box"}] {
					a.access(fc, in, x, true, "lets "+name+" write to")
				}
			}
		}
	}
	switch typ {
	case "sync.Pool":
		for l := range arg(0) {
			if m == "Put" {
				a.into(a.cell(pLoc{l.o, "pool"}), arg(1))
				continue
			}
			// what a pool hands out belongs to who took it
			out := pSet{}
			for x := range a.cells[pLoc{l.o, "pool"}] {
				if x.o.phase == phase {
					out.add(x)
				}
			}
			if st, ok := l.typeOf().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() != "New" {
						continue
					}
					for f := range a.load(pLoc{l.o, st.Field(i)}) {
						if r := a.callFunc(fc, in, f.o, nil, cc, phase, nil); len(r) > 0 {
							out = union(out, r[0])
						}
					}
				}
			}
			give([]pSet{out})
		}
		return
	case "sync.Once":
		for f := range arg(1) {
			if f.o.kind == 'f' && f.o.fn != nil && hasBlocks(f.o.fn) {
				a.invoke(fc, in, f.o.fn, f.o, nil, phase)
				for _, c := range a.order {
					if c.fn == f.o.fn && !a.once[c] {
						a.once[c] = true
						a.changed = true
					}
				}
			}
		}
		return
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Cond":
		return
	case "sync.Map", "sync/atomic.Value", "sync/atomic.Pointer":
		for l := range arg(0) {
			c := a.cell(pLoc{l.o, "atomic"})
			for _, s := range args[1:] {
				a.into(c, s)
			}
			n := sig.Results().Len()
			if n > 0 {
				out := make([]pSet, n)
				for i := range out {
					out[i] = filterTo(c, sig.Results().At(i).Type())
				}
				give(out)
			}
		}
		if m == "Range" {
			for f := range arg(1) {
				a.callFunc(fc, in, f.o, []pSet{arg(0), arg(0)}, cc, phase, nil)
			}
		}
		return
	case "reflect.Value":
		a.reflectMethod(fc, in, m, args, cc, phase, give)
		return
	case "reflect.Type":
		return
	}
	switch name {
	case "reflect.ValueOf": // a value, not yet a place
		out := pSet{}
		for l := range arg(0) {
			if l.o.kind == 'b' && l.k == nil {
				for x := range a.cells[pLoc{l.o, "box"}] {
					out.add(x)
				}
				// the value itself may be read out again
				out.add(l)
			} else {
				out.add(l)
			}
		}
		give([]pSet{out})
		return
	case "reflect.Indirect":
		out := pSet{}
		for l := range arg(0) {
			if _, isPlace := l.k.(placeK); !isPlace && l.typeOf() != nil {
				out.add(pLoc{l.o, placeK{l.k}})
				continue
			}
			out.add(l)
			if q, isPlace := asPlace(l); isPlace {
				for x := range a.load(q) {
					if x.typeOf() != nil {
						out.add(pLoc{x.o, placeK{x.k}})
					}
				}
			}
		}
		give([]pSet{out})
		return
	case "reflect.New", "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize", "reflect.MakeChan", "reflect.Zero":
		o := a.obj(pObjKey{in, fc, ""}, 'x', fc.phase, types.NewInterfaceType(nil, nil), in.Pos(), "the value made by "+name)
		give([]pSet{one(o)})
		return
	case "reflect.Append", "reflect.AppendSlice":
		written(arg(0))
		give([]pSet{union(args...)})
		return
	case "reflect.Copy":
		written(arg(0))
		return
	case "reflect.TypeOf", "reflect.PtrTo", "reflect.PointerTo", "reflect.DeepEqual":
		return
	case "slices.Clip", "slices.Clone", "slices.Concat", "bytes.Clone":
		o := a.obj(pObjKey{in, fc, ""}, 's', fc.phase, sig.Results().At(0).Type(), in.Pos(), "the copy of a list")
		for _, s := range args {
			for l := range s {
				a.store(pLoc{o, "[]"}, a.load(pLoc{l.o, "[]"}))
			}
		}
		give([]pSet{one(o)})
		return
	}
	if ix, ok := mutators[name]; ok {
		for _, i := range ix {
			s := arg(i)
			if strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "io.Copy") && i == 0 || name == "io.WriteString" || name == "net/http.SetCookie" {
				w := pSet{}
				for l := range s {
					if t := l.typeOf(); t != nil {
						if _, bad := unsafeTypes[types.TypeString(types.Unalias(t), nil)]; bad {
							w.add(l)
						}
					}
				}
				s = w
			}
			written(s)
		}
	} else if reads, ok := unsafeTypes[typ]; ok && !strings.Contains(reads, " "+m+" ") {
		for l := range arg(0) {
			k := l
			if l.o.kind == 'm' && l.k == nil {
				k = pLoc{l.o, "val"}
			}
			a.access(fc, in, k, true, "calls "+name+" on")
		}
	}
	// callbacks
	ph := phase
	if name == "time.AfterFunc" || name == "runtime.SetFinalizer" {
		ph = phRequest
	}
	for _, s := range args {
		for l := range s {
			if l.o.kind == 'f' && l.k == nil && l.o.fn != nil && hasBlocks(l.o.fn) {
				var ps []pSet
				for _, p := range l.o.fn.Params {
					ps = append(ps, a.unknown(p.Type(), ph, p, nil, 1, "what "+name+" passes"))
				}
				a.invoke(fc, in, l.o.fn, l.o, ps, ph)
			}
		}
	}
	// results
	n := sig.Results().Len()
	if n == 0 {
		return
	}
	out := make([]pSet, n)
	for i := range out {
		t := sig.Results().At(i).Type()
		out[i] = union(a.unknown(t, fc.phase, in, fc, 1, "what "+name+" returns"))
		if strings.HasPrefix(name, "context.With") {
			out[i] = union(out[i], filterTo(union(args...), t))
			continue
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map:
			for _, s := range args {
				for l := range filterTo(s, t) {
					out[i].add(l)
				}
			}
		}
	}
	give(out)
}

// reflectMethod models the methods of reflect.Value: a value is the places it
// may refer to, before and after following a pointer.
func (a *pta) reflectMethod(fc *pClone, in ssa.Instruction, m string, args []pSet, cc *ssa.CallCommon, phase byte, give func([]pSet)) {
	var r pSet
	if len(args) > 0 {
		r = args[0]
	}
	union := pSet{}
	switch m {
	case "Elem":
		for l := range r {
			if q, ok := asPlace(l); ok {
				// what the place holds: an interface's value, or where a
				// pointer leads
				t := q.typeOf()
				for x := range a.load(q) {
					if t != nil && isIface(t) {
						union.add(x)
					} else if x.typeOf() != nil {
						union.add(pLoc{x.o, placeK{x.k}})
					}
				}
				continue
			}
			switch {
			case l.typeOf() != nil:
				union.add(pLoc{l.o, placeK{l.k}})
			case l.o.kind == 'b':
				for x := range a.cells[pLoc{l.o, "box"}] {
					union.add(x)
				}
			case l.o.kind == 'x':
				union.add(l)
			}
		}
		give([]pSet{union})
	case "Addr":
		for l := range r {
			if q, ok := asPlace(l); ok {
				union.add(q)
			}
		}
		give([]pSet{union})
	case "Field", "FieldByName", "FieldByIndex", "Index", "MapIndex", "Convert", "Slice", "Slice3", "MapKeys", "MapRange", "Recv", "Interface", "Method", "MethodByName":
		for l := range r {
			q, ok := asPlace(l)
			if !ok {
				union.add(l)
				for x := range a.contents(pSet{l: {}}) {
					union.add(x)
				}
				if l.o.kind == 's' && l.k == nil && m == "Index" {
					union.add(pLoc{l.o, placeK{"[]"}})
				}
				continue
			}
			switch m {
			case "Field", "FieldByName", "FieldByIndex":
				if t := q.typeOf(); t != nil {
					if st, ok := t.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							union.add(pLoc{q.o, placeK{st.Field(i)}})
						}
					}
				}
			case "Index":
				if t := q.typeOf(); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						union.add(pLoc{q.o, placeK{"[]"}})
					}
				}
				for x := range a.load(q) {
					if x.o.kind == 's' {
						union.add(pLoc{x.o, placeK{"[]"}})
					}
				}
			case "Slice", "Slice3", "MapKeys", "MapRange", "MapIndex", "Recv":
				ld := a.load(q)
				for x := range ld {
					union.add(x)
				}
				for x := range a.contents(ld) {
					union.add(x)
				}
			default:
				for x := range a.load(q) {
					union.add(x)
				}
			}
		}
		if m == "Interface" {
			for l := range r {
				ls := pSet{l: {}}
				if q, ok := asPlace(l); ok {
					ls = a.load(q)
				}
				for l := range ls {
					switch l.o.kind {
					case 's', 'm', 'c', 'f':
						if l.k != nil {
							continue
						}
						o := a.obj(pObjKey{in, fc, "box" + l.o.typ.String()}, 'b', fc.phase, l.o.typ, in.Pos(), "a value read by reflection")
						a.into(a.cell(pLoc{o, "box"}), pSet{l: {}})
						union.add(pLoc{o, nil})
					}
				}
			}
		}
		if m == "MapKeys" {
			o := a.obj(pObjKey{in, fc, ""}, 's', fc.phase, cc.Signature().Results().At(0).Type(), in.Pos(), "the keys of a map")
			a.into(a.cell(pLoc{o, "[]"}), union)
			union = one(o)
		}
		give([]pSet{union})
	case "Set", "SetMapIndex", "SetString", "SetInt", "SetUint", "SetFloat", "SetBool", "SetBytes", "SetLen", "SetCap", "SetComplex", "SetPointer", "SetZero", "Grow", "Clear":
		vals := pSet{}
		for _, s := range args[1:] {
			for l := range a.unplace(s) {
				vals.add(l)
			}
		}
		for l := range r {
			if q, ok := asPlace(l); ok {
				if m == "SetMapIndex" || m == "Clear" {
					for x := range a.load(q) {
						if x.o.kind == 'm' {
							a.access(fc, in, pLoc{x.o, "val"}, true, "sets by reflection")
							a.store(pLoc{x.o, "val"}, vals)
						}
					}
					continue
				}
				a.access(fc, in, q, true, "sets by reflection")
				a.store(q, vals)
				continue
			}
			switch {
			case l.o.kind == 'm' && l.k == nil:
				a.access(fc, in, pLoc{l.o, "val"}, true, "sets by reflection")
				a.store(pLoc{l.o, "val"}, vals)
			case l.o.kind == 'x':
				a.access(fc, in, l, true, "sets by reflection")
			}
		}
	case "Call", "CallSlice":
		o := a.obj(pObjKey{in, fc, ""}, 's', fc.phase, cc.Signature().Results().At(0).Type(), in.Pos(), "the results of a call by reflection")
		for l := range a.unplace(r) {
			if l.o.kind != 'f' || l.k != nil || l.o.fn == nil || !hasBlocks(l.o.fn) {
				continue
			}
			var ps []pSet
			for _, p := range l.o.fn.Params {
				// the arguments are found by type
				ps = append(ps, a.byType(p.Type(), phase, p))
			}
			for _, x := range a.invoke(fc, in, l.o.fn, l.o, ps, phase) {
				a.into(a.cell(pLoc{o, "[]"}), x)
			}
		}
		give([]pSet{one(o)})
	}
}

// placeK marks a reflect.Value that is the place itself (it can be set), not a
// copy of a value.
type placeK struct{ k interface{} }

func asPlace(l pLoc) (pLoc, bool) {
	if p, ok := l.k.(placeK); ok {
		return pLoc{l.o, p.k}, true
	}
	return l, false
}

// unplace reads what the reflected values are.
func (a *pta) unplace(s pSet) pSet {
	out := pSet{}
	for l := range s {
		if q, ok := asPlace(l); ok {
			for x := range a.load(q) {
				out.add(x)
			}
			continue
		}
		out.add(l)
	}
	return out
}
