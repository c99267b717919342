package hz

import (
	"fmt"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
)

// OddNames are similar and unusual names.
var OddNames = []string{
	"a.default.svc.cluster.local", "a.default.svc.cluster.local.", "A.default.svc.cluster.local", "a.default.svc.cluster.locals", "a.default.svc.cluster.local:80", "a.default.svc",
	" a", "a", "a ", "*.a", "outbound|80||a.default.svc.cluster.local", "outbound|80|v1|a.default.svc.cluster.local", "outbound_.80_._.a.default.svc.cluster.local",
	"10.0.0.1", "10.0.0.1_80", "é\x01%2f/", "80",
}

// Variant is one change of a message: a field set that was not.
type Variant struct {
	Label    string
	Do, Undo func()
}

// Variants lists all ways to set one field that is not set anywhere in a
// message, also within typed Any fields, but not the fields in skip (full
// names), which have a meaning, nor alternatives to those that are set. Every
// field takes several values, every enum all of its values; all fields at once
// come last.
func Variants(m proto.Message, skip map[string]bool) []Variant {
	n := &noise{skip: skip}
	n.walk(m.ProtoReflect(), "", func() {})
	all := map[int][]Variant{}
	max := 0
	for _, v := range n.out {
		all[v.k] = append(all[v.k], v.Variant)
		if v.k > max {
			max = v.k
		}
	}
	var out []Variant
	for _, v := range n.out {
		out = append(out, v.Variant)
	}
	for k := 0; k <= max; k++ {
		l := all[k]
		out = append(out, Variant{fmt.Sprint("all fields, value ", k), func() {
			for _, v := range l {
				v.Do()
			}
		}, func() {
			for i := len(l) - 1; i >= 0; i-- {
				l[i].Undo()
			}
		}})
	}
	return out
}

type noise struct {
	skip map[string]bool
	out  []struct {
		Variant
		k int // the how manieth value of its field
	}
}

// walk adds the variants of a message; up stores a changed message in those
// that contain it.
func (n *noise) walk(m protoreflect.Message, path string, up func()) {
	if a, ok := m.Interface().(*anypb.Any); ok {
		in, err := a.UnmarshalNew()
		if err != nil {
			return
		}
		n.walk(in.ProtoReflect(), path+"("+string(in.ProtoReflect().Descriptor().Name())+")", func() {
			v, err := proto.MarshalOptions{Deterministic: true}.Marshal(in)
			if err != nil {
				panic(err)
			}
			a.Value = v
			up()
		})
		return
	}
	if m.Descriptor().FullName().Parent() == "google.protobuf" {
		return // durations and other values
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		p := path + "." + string(f.Name())
		if m.Has(f) {
			if f.Message() == nil && !f.IsMap() {
				continue
			}
			switch {
			case f.IsMap():
				if f.MapValue().Message() != nil {
					m.Get(f).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
						n.walk(v.Message(), fmt.Sprintf("%s[%v]", p, k), up)
						return true
					})
				}
			case f.IsList():
				l := m.Get(f).List()
				for j := 0; j < l.Len(); j++ {
					n.walk(l.Get(j).Message(), fmt.Sprintf("%s[%d]", p, j), up)
				}
			default:
				n.walk(m.Get(f).Message(), p, up)
			}
			continue
		}
		if n.skip[string(f.FullName())] {
			continue
		}
		if o := f.ContainingOneof(); o != nil && m.WhichOneof(o) != nil {
			continue
		}
		for k, v := range values(m, f, 2) {
			f, v, k := f, v, k
			n.out = append(n.out, struct {
				Variant
				k int
			}{Variant{fmt.Sprintf("%s = value %d", p, k), func() {
				m.Set(f, v)
				up()
			}, func() {
				m.Clear(f)
				up()
			}}, k})
		}
	}
}

// values are some values for a field.
func values(m protoreflect.Message, f protoreflect.FieldDescriptor, depth int) (out []protoreflect.Value) {
	switch {
	case f.IsMap():
		mp := m.NewField(f).Map()
		var v protoreflect.Value
		if f.MapValue().Message() != nil {
			v = mp.NewValue()
		} else {
			v = scalars(f.MapValue())[0]
		}
		mp.Set(scalars(f.MapKey())[0].MapKey(), v)
		return []protoreflect.Value{protoreflect.ValueOfMap(mp)}
	case f.IsList():
		if f.Message() == nil {
			for _, v := range scalars(f) {
				l := m.NewField(f).List()
				l.Append(v)
				out = append(out, protoreflect.ValueOfList(l))
			}
			return out
		}
		for _, v := range messages(m.NewField(f).List().NewElement().Message(), depth) {
			l := m.NewField(f).List()
			l.Append(v)
			out = append(out, protoreflect.ValueOfList(l))
		}
		return out
	case f.Message() != nil:
		return messages(m.NewField(f).Message(), depth)
	}
	return scalars(f)
}

// messages: the empty message, and some with all fields set.
func messages(m protoreflect.Message, depth int) []protoreflect.Value {
	out := []protoreflect.Value{protoreflect.ValueOfMessage(m)}
	if depth == 0 {
		return out
	}
	fs := m.Descriptor().Fields()
	n := 1
	if fs.Len() == 1 && fs.Get(0).Message() == nil && !fs.Get(0).IsList() {
		n = len(scalars(fs.Get(0))) // wrappers
	}
	for k := 0; k < n; k++ {
		full := m.New()
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			if o := f.ContainingOneof(); o != nil && full.WhichOneof(o) != nil {
				continue
			}
			if vs := values(full, f, depth-1); len(vs) > 0 {
				j := k
				if f.Message() != nil {
					j = len(vs) - 1
				}
				if j >= len(vs) {
					j = 0
				}
				full.Set(f, vs[j])
			}
		}
		out = append(out, protoreflect.ValueOfMessage(full))
	}
	return out
}

func scalars(f protoreflect.FieldDescriptor) (out []protoreflect.Value) {
	switch f.Kind() {
	case protoreflect.BoolKind:
		out = append(out, protoreflect.ValueOfBool(true))
	case protoreflect.StringKind:
		out = append(out, protoreflect.ValueOfString("noise"))
	case protoreflect.BytesKind:
		out = append(out, protoreflect.ValueOfBytes([]byte("noise")))
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		for i := 0; i < vs.Len(); i++ {
			if k := vs.Get(i).Number(); k != 0 {
				out = append(out, protoreflect.ValueOfEnum(k))
			}
		}
		if len(out) == 0 {
			out = append(out, protoreflect.ValueOfEnum(0))
		}
	case protoreflect.FloatKind:
		out = append(out, protoreflect.ValueOfFloat32(1), protoreflect.ValueOfFloat32(50))
	case protoreflect.DoubleKind:
		out = append(out, protoreflect.ValueOfFloat64(1), protoreflect.ValueOfFloat64(50))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		out = append(out, protoreflect.ValueOfInt32(1), protoreflect.ValueOfInt32(50))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		out = append(out, protoreflect.ValueOfInt64(1), protoreflect.ValueOfInt64(50))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		out = append(out, protoreflect.ValueOfUint32(1), protoreflect.ValueOfUint32(50))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		out = append(out, protoreflect.ValueOfUint64(1), protoreflect.ValueOfUint64(50))
	}
	return
}
