O='common/netdata/dataoutputx.go'; I='common/netdata/datainputx.go'
EDITS=[
('C03','catch','blob-253-to-255',[(O,'valueLen <= 253','valueLen <= 255')]),
('C03','catch','blob-65535-to-65536',[(O,'valueLen <= 65535','valueLen <= 65536')]),
('C03','catch','blob-marker-swap',[(O,'WriteUInt8(255)','WriteUInt8(254)')]),
('C03','catch','read-255-signed',[(I,'int32(uint16(v))','int32(v)')]),
('C03','catch','read-254-16',[(I,'case 254:\n\t\tlength, err = in.ReadInt32()','case 254:\n\t\tvar v int16\n\t\tv, err = in.ReadInt16()\n\t\tlength = int32(v)')]),
('C03','catch','little-endian-int16',[(O,'out.written += 2\n\terr := binary.Write(out.writer, binary.BigEndian','out.written += 2\n\terr := binary.Write(out.writer, binary.LittleEndian')]),
('C03','catch','little-endian-read64',[(I,'in.offset +=8\n\tvar value int64\n\terr := binary.Read(in.reader, binary.BigEndian','in.offset +=8\n\tvar value int64\n\terr := binary.Read(in.reader, binary.LittleEndian')]),
('C03','catch','decimal-range16',[(O,'value >= math.MinInt16 && value <= math.MaxInt16','value >= math.MinInt16 && value <= math.MaxUint16')]),
('C03','catch','decimal-range8-neg',[(O,'value >= math.MinInt8 && value <= math.MaxInt8','value >= math.MinInt16 && value <= math.MaxInt8')]),
('C03','catch','decimal32-tag',[(O,'_, err = out.WriteInt8(2)\n\t\t_, err = out.WriteInt16(int16(value))\n\t} else if value >= math.MinInt32 && value <= math.MaxInt32 {\n\t\t_, err = out.WriteInt8(4)\n\t\t_, err = out.WriteInt32(int32(value))\n\t}\n\treturn','_, err = out.WriteInt8(2)\n\t\t_, err = out.WriteInt16(int16(value))\n\t} else if value >= math.MinInt32 && value <= math.MaxInt32 {\n\t\t_, err = out.WriteInt8(3)\n\t\t_, err = out.WriteInt32(int32(value))\n\t}\n\treturn')]),
('C03','catch','read-decimal-unsigned',[(I,'var v int8\n\t\tv, err = in.ReadInt8()','var v uint8\n\t\tv, err = in.ReadUInt8()')]),
('C03','catch','bool-inverted',[(I,'if value == 0 {\n\t\treturn false','if value != 0 {\n\t\treturn false')]),
('C03','catch','bool-write',[(O,'if value == true','if value != true')]),
('C03','catch','short-read',[(I,'io.ReadFull(in.reader, val)','in.reader.Read(val)')]),
('C03','catch','intbytes-short-len',[(O,'out.WriteInt32(int32(len(value)))','out.WriteInt32(int32(len(value) + 1))')]),
('C03','catch','string-limit',[(O,'length > 100000','length > 1000')]),
('C03','catch','string-truncate',[(O,'WriteBlob([]byte(value))','WriteBlob([]byte(value[:length-1]))')]),
('C03','quiet','blob-switch',[(O,'''		if valueLen <= 253 {
			_, err = out.WriteUInt8(byte(valueLen))
			err = out.Write(value)
		} else if valueLen <= 65535 {
			_, err = out.WriteUInt8(255)
			_, err = out.WriteInt16(int16(valueLen))
			err = out.Write(value)
		} else {
			_, err = out.WriteUInt8(254)
			_, err = out.WriteInt32(int32(valueLen))
			err = out.Write(value)
		}
''','''		switch {
		case valueLen > 65535:
			_, err = out.WriteUInt8(254)
			_, err = out.WriteInt32(int32(valueLen))
		case valueLen > 253:
			_, err = out.WriteUInt8(255)
			_, err = out.WriteInt16(int16(uint16(valueLen)))
		default:
			_, err = out.WriteUInt8(uint8(valueLen))
		}
		err = out.Write(value)
''')]),
('C03','quiet','blob-254',[(O,'valueLen <= 253','valueLen < 254')]),
('C03','quiet','blob-smaller',[(O,'valueLen <= 253','valueLen <= 200')]),
('C03','quiet','putuint',[(O,'''	out.written += 4
	err := binary.Write(out.writer, binary.BigEndian, value)
	if err != nil {
		return out, err
	}
	return out, err
}''','''	out.written += 4
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(value))
	_, err := out.writer.Write(b[:])
	return out, err
}''')]),
('C03','quiet','helper',[(O,'''	out.written += 2
	err := binary.Write(out.writer, binary.BigEndian, value)
	if err != nil {
		return out, err
	}
	return out, err
}''','''	return out, out.put(2, value)
}
func (out *DataOutputX) put(n int32, v interface{}) error {
	out.written += n
	return binary.Write(out.writer, binary.BigEndian, v)
}''')]),
('C03','quiet','bool-byte',[(O,'''	if value == true {
		_, err = out.WriteInt8(1)
	} else {
		_, err = out.WriteInt8(0)
	}
	return''','''	var b int8
	if value {
		b = 1
	}
	_, err = out.WriteInt8(b)
	return''')]),
('C03','quiet','readbool',[(I,'''	if value == 0 {
		return false, err
	} else {
		return true, err
	}''','''	return value != 0, err''')]),
('C03','quiet','decimal-delegate',[(O,'''func (out *DataOutputX) WriteDecimal32(value int32) (*DataOutputX, error) {
	var err error
	if value == 0 {
		_, err = out.WriteInt8(0)
	} else if value >= math.MinInt8 && value <= math.MaxInt8 {
		_, err = out.WriteInt8(1)
		_, err = out.WriteInt8(int8(value))
	} else if value >= math.MinInt16 && value <= math.MaxInt16 {
		_, err = out.WriteInt8(2)
		_, err = out.WriteInt16(int16(value))
	} else if value >= math.MinInt32 && value <= math.MaxInt32 {
		_, err = out.WriteInt8(4)
		_, err = out.WriteInt32(int32(value))
	}
	return out, err''','''func (out *DataOutputX) WriteDecimal32(value int32) (*DataOutputX, error) {
	return out.WriteDecimal(int64(value))''')]),
('C03','quiet','readdecimal-ifs',[(I,'''	case 1:
		var v int8
		v, err = in.ReadInt8()
		return int64(v), err
	case 2:
		var v int16
		v, err = in.ReadInt16()
		return int64(v), err
''','''	case 1:
		v, e := in.ReadUInt8()
		return int64(int8(v)), e
	case 2:
		v, e := in.ReadInt16()
		return int64(v), e
''')]),
]
EDITS+=[
('C03','quiet','read-mask',[(I,'int32(uint16(v))','int32(v) & 0xffff')]),
('C03','quiet','read-uint32',[(I,'''	in.offset += 4
	var value int32
	err := binary.Read(in.reader, binary.BigEndian, &value)
	return value, err''','''	in.offset += 4
	var b [4]byte
	_, err := io.ReadFull(in.reader, b[:])
	return int32(binary.BigEndian.Uint32(b[:])), err''')]),
('C03','catch','put-little',[(O,'''	out.written += 4
	err := binary.Write(out.writer, binary.BigEndian, value)
	if err != nil {
		return out, err
	}
	return out, err
}''','''	out.written += 4
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], uint32(value))
	_, err := out.writer.Write(b[:])
	return out, err
}''')]),
]
