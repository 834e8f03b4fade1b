N='common/netdata/'
EDITS=[
('C02','catch','rswap',[(N+'objectpack.go','objectPack.ObjName, err = in.ReadString()\n\tobjectPack.Address, err = in.ReadString()','objectPack.Address, err = in.ReadString()\n\tobjectPack.ObjName, err = in.ReadString()')]),
('C02','catch','rwidth',[(N+'texthashvalue.go','in.ReadInt32()','in.ReadInt32()\n\tif err == nil {\n\t\t_, err = in.ReadInt8()\n\t}')]),
('C02','catch','rnarrow',[(N+'objectpack.go','objectPack.ObjHash = int32(objHash)','objectPack.ObjHash = int32(int16(objHash))')]),
('C02','catch','rfac',[(N+'valuecreator.go','return NewTextHashEmptyValue()','return NewTextEmptyValue()')]),
('C02','catch','rfacmap',[(N+'valuecreator.go','return NewMapValue()','return new(MapValue)')]),
('C02','catch','rcount',[(N+'mapvalue.go','i < size; i++','i < size-1; i++')]),
('C02','catch','rskip',[(N+'mapvalue.go','mapValue.Table[key] = value\n\t}\n\treturn mapValue','if key != "" {\n\t\t\tmapValue.Table[key] = value\n\t\t}\n\t}\n\treturn mapValue')]),
('C02','catch','rk8s',[(N+'perfcounter_k8s_pack.go','pack.MetricLevel, err = in.ReadInt8()','pack.Timetype, err = in.ReadInt8()')]),
('C02','catch','bothconsistent-one-type',[(N+'perfcounterpack.go','pack.Timetype, err = in.ReadInt8()\n','')]),
('C02','quiet','rhelper',[(N+'perfcounterpack.go','pack.Timetype, err = in.ReadInt8()\n','pack.Timetype, err = rt(in)\n'),(N+'perfcounterpack.go',None,'\nfunc rt(in *DataInputX) (int8, error) {\n\treturn in.ReadInt8()\n}\n')]),
('C02','quiet','rlocal',[(N+'perfcounterpack.go','pack.Timetype, err = in.ReadInt8()\n','tt, err := in.ReadInt8()\n\tif err != nil {\n\t\treturn pack, err\n\t}\n\tpack.Timetype = tt\n')]),
('C02','quiet','rdown',[(N+'mapvalue.go','for i := int64(0); i < size; i++ {','for i := size; i > 0; i-- {')]),
('C02','quiet','fac-map',[(N+'valuecreator.go','	case valueconstants.LIST:\n		return NewListValue()\n','	case valueconstants.LIST:\n		l := NewListValue()\n		return l\n')]),
]
