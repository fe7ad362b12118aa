package h

import (
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// fill sets a random subset of the fields of m to random values.
func (w *World) fill(m protoreflect.Message, depth, num, den int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !w.Chance(num, den) {
			continue
		}
		switch {
		case fd.IsMap():
		case fd.IsList():
			l := m.Mutable(fd).List()
			for k := 1 + w.N(2); k > 0; k-- {
				if fd.Kind() == protoreflect.MessageKind {
					if depth > 0 {
						e := l.NewElement()
						w.fill(e.Message(), depth-1, num, den)
						l.Append(e)
					}
				} else {
					l.Append(w.scalar(fd))
				}
			}
		case fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind:
			if depth > 0 {
				w.fill(m.Mutable(fd).Message(), depth-1, num, den)
			} else if w.Chance(1, 2) {
				m.Mutable(fd) // present, but empty
			}
		default:
			m.Set(fd, w.scalar(fd))
		}
	}
}

func (w *World) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	num := func() uint64 {
		switch w.N(5) {
		case 0:
			return 0
		case 1:
			return uint64(w.N(8))
		case 2:
			return ^uint64(0)
		case 3:
			return uint64(vnow().UnixMilli())
		}
		return uint64(w.N(1<<30))<<20 + uint64(w.N(1<<20))
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(w.Chance(1, 2))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(w.N(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(num()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(num()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(num()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(num())
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(num()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(num()))
	case protoreflect.StringKind:
		switch w.N(5) {
		case 0:
			return protoreflect.ValueOfString("")
		case 1:
			return protoreflect.ValueOfString(w.newUUID())
		case 2:
			return protoreflect.ValueOfString("../../" + string(w.RandBytesHex(4)))
		case 3:
			return protoreflect.ValueOfString("+15550001000")
		}
		return protoreflect.ValueOfString(string(w.RandBytesHex(1 + w.N(20))))
	}
	n := []int{0, 1, 15, 16, 31, 32, 33, 64, 100}[w.N(9)]
	return protoreflect.ValueOfBytes(w.RandBytes(n))
}

func (w *World) RandBytesHex(n int) []byte {
	const d = "0123456789abcdef"
	b := w.RandBytes(n)
	for i := range b {
		b[i] = d[b[i]&15]
	}
	return b
}

// mutate damages bytes.
func (w *World) mutate(b []byte) []byte {
	c := append([]byte{}, b...)
	switch w.N(7) {
	case 0, 1:
		if len(c) > 0 {
			c[w.N(len(c))] ^= 1 << w.N(8)
		}
	case 2:
		c = c[:w.N(len(c)+1)]
	case 3:
		c = append(c, w.RandBytes(1+w.N(40))...)
	case 4:
		if len(c) > 8 {
			c[len(c)-1-w.N(8)] ^= byte(1 + w.N(255))
		}
	case 5:
		if len(c) > 4 { // a piece is missing in the middle
			i := w.N(len(c) - 2)
			j := i + 1 + w.N(len(c)-i-1)
			c = append(c[:i:i], c[j:]...)
		}
	case 6: // a length that is too large
		if len(c) > 12 {
			copy(c[w.N(len(c)-11):], protowire.AppendVarint(nil, ^uint64(0)>>uint(w.N(40))))
		}
	}
	return c
}
