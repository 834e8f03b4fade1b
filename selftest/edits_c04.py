N='common/netdata/'; I=N+'datainputx.go'; L=N+'listvalue.go'; M=N+'mapvalue.go'; MP=N+'mappack.go'
EDITS=[
('C04','catch','list-no-stop',[(L,'''		if err != nil {
			return listValue, err
		}
		listValue.Value''','''		listValue.Value''')]),
('C04','catch','mappack-key-only',[(MP,'''		value, err = in.ReadValue()
		if err != nil {
			return mapPack, err
		}
''','''		value, _ = in.ReadValue()
''')]),
('C04','catch','readvalue-nil-factory',[(I,'''	if value == nil {
		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
	}
''','')]),
('C04','catch','readvalue-unknown-ok',[(I,'return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))','return NewNilValue(), nil')]),
('C04','catch','readpack-typeerr',[(I,'''	packType, err := in.ReadInt8()
	if err != nil {
		return nil, err
	}
''','''	packType, _ := in.ReadInt8()
''')]),
('C04','catch','read-neg',[(I,'if len < 0 {','if len < -1 {')]),
('C04','catch','read-swallow',[(I,'''	if err != nil {
		val = []byte{}
	}
	return val, err
}

func (in *DataInputX) ReadPack''','''	if err != nil {
		return []byte{}, nil
	}
	return val, err
}

func (in *DataInputX) ReadPack''')]),
('C04','catch','read-short',[(I,'io.ReadFull(in.reader, val)','in.reader.Read(val)')]),
('C04','catch','tags-assert',[(N+'alertpack.go','''	tags, ok := value.(*MapValue)
	if !ok {
		return p, errNotMapValue
	}
	p.Tags = tags''','''	p.Tags = value.(*MapValue)''')]),
('C04','catch','tags-ignored',[(N+'alertpack.go','''	if !ok {
		return p, errNotMapValue
	}
''','''	_ = ok
''')]),
('C04','catch','alert-last-err',[(N+'alertpack.go','''	if err != nil {
		return p, err
	}
	tags''','''	if err != nil {
		return p, nil
	}
	tags''')]),
('C04','catch','shadow',[(N+'alertpack.go','''	if err != nil {
		return p, err
	}
	tags''','''	if err == io.ErrUnexpectedEOF {
		return p, err
	}
	tags'''),(N+'alertpack.go','import packc','import (\n\t"io"\n\tpackc'),(N+'alertpack.go','packconstant"','packconstant"\n)')]),
('C04','catch','decimal-blank',[(I,'''		v, err = in.ReadInt32()
		return int64(v), err
	case 8''','''		v, _ = in.ReadInt32()
		return int64(v), err
	case 8''')]),
('C04','catch','ip4-err',[(N+'ip4value.go','''	var err error
	Ip4Value.Value, err = in.Read(4)
	return Ip4Value, err''','''	b, err := in.Read(4)
	if err == nil {
		Ip4Value.Value = b
	}
	return Ip4Value, nil''')]),
('C04','catch','blob-len-err',[(I,'''	if err != nil {
		return []byte{}, err
	}
	return in.Read(length)''','''	return in.Read(length)''')]),
('C04','quiet','list-break',[(L,'''		if err != nil {
			return listValue, err
		}
		listValue.Value''','''		if err != nil {
			break
		}
		listValue.Value''')]),
('C04','quiet','list-cond',[(L,'i < size; i++','i < size && err == nil; i++'),(L,'''		if err != nil {
			return listValue, err
		}
		listValue.Value = append(listValue.Value, value)''','''		if err == nil {
			listValue.Value = append(listValue.Value, value)
		}''')]),
('C04','quiet','size-check',[(M,'''	size, err := in.ReadDecimal()
''','''	size, err := in.ReadDecimal()
	if err != nil {
		return mapValue, err
	}
''')]),
('C04','quiet','helper',[(M,'''		key, err = in.ReadString()
		if err != nil {
			return mapValue, err
		}
		value, err = in.ReadValue()
		if err != nil {
			return mapValue, err
		}
		mapValue.Table[key] = value
''','''		if key, value, err = readEntry(in); err != nil {
			return mapValue, err
		}
		mapValue.Table[key] = value
'''),(M,None,'''
func readEntry(in *DataInputX) (string, Value, error) {
	key, err := in.ReadString()
	if err != nil {
		return "", nil, err
	}
	value, err := in.ReadValue()
	return key, value, err
}
''')]),
('C04','quiet','readpack-switch',[(I,'''	if pack == nil {
		return nil, errors.New("[scouter] Not defined pack type:" + strconv.Itoa(int(packType)))
	}
	return pack.Read(in)''','''	if pack != nil {
		return pack.Read(in)
	}
	return nil, fmt.Errorf("unknown pack %d", packType)'''),(I,'"errors"','"errors"\n\t"fmt"')]),
('C04','quiet','tags-switch',[(N+'alertpack.go','''	tags, ok := value.(*MapValue)
	if !ok {
		return p, errNotMapValue
	}
	p.Tags = tags
	return p, nil''','''	switch t := value.(type) {
	case *MapValue:
		p.Tags = t
		return p, nil
	default:
		return p, errNotMapValue
	}''')]),
('C04','quiet','early-errs',[(N+'alertpack.go','''	level, err := in.ReadUInt8()
''','''	if err != nil {
		return p, err
	}
	level, err := in.ReadUInt8()
''')]),
]
