MP='common/netdata/mappack.go'; MV='common/netdata/mapvalue.go'; LV='common/netdata/listvalue.go'; PC='common/netdata/perfcounterpack.go'; KP='common/netdata/perfcounter_k8s_pack.go'; DV='common/netdata/decimalvalue.go'
EDITS=[
('C25','catch','put-drop-uint',[(MP,'	case uint:\n		mapPack.Table[key] = NewDecimalValue(int64(t))\n','')]),
('C25','catch','put-narrow',[(MV,'NewDecimalValue(int64(any.(uint32)))','NewDecimalValue(int64(int32(any.(uint32))))')]),
('C25','catch','put-float-as-int',[(MP,'NewFloatValue(t)','NewDecimalValue(int64(t))')]),
('C25','catch','put-double-as-float',[(MV,'NewDoubleValue(any.(float64))','NewFloatValue(float32(any.(float64)))')]),
('C25','catch','put-double-narrow',[(MV,'NewDoubleValue(any.(float64))','NewDoubleValue(float64(float32(any.(float64))))')]),
('C25','catch','put-skip-zero',[(MP,'	case int64:\n		mapPack.Table[key] = NewDecimalValue(t)','	case int64:\n		if t != 0 {\n			mapPack.Table[key] = NewDecimalValue(t)\n		}')]),
('C25','catch','put-empty-string',[(MP,'		mapPack.Table[key] = NewTextValue(t)','		if t != "" {\n			mapPack.Table[key] = NewTextValue(t)\n		}')]),
('C25','catch','put-keep-old',[(MP,'	switch t := any.(type) {\n','	if _, ok := mapPack.Table[key]; ok {\n		return\n	}\n	switch t := any.(type) {\n')]),
('C25','catch','put-neg',[(PC,'		pack.Data.Put(key, NewDecimalValue(int64(v)))\n	case int64:','		if v < 0 {\n			v = 0\n		}\n		pack.Data.Put(key, NewDecimalValue(int64(v)))\n	case int64:')]),
('C25','catch','put-k8s-default',[(KP,'	default:\n		pack.Data.Put(key, any)\n','')]),
('C25','catch','put-value-case',[(MV,'	case Value:\n		mapValue.Table[key] = any.(Value)\n','	case *TextValue:\n		mapValue.Table[key] = any.(Value)\n')]),
('C25','catch','dec-ctor',[(DV,'	decimalValue.Value = value\n','	decimalValue.Value = int64(int32(value))\n')]),
('C25','catch','get-narrow',[(MP,'return int64(v.Value)','return int64(int32(v.Value))')]),
('C25','catch','get-noassert',[(MP,'	v, ok := mapPack.Table[key].(*DecimalValue)\n	if ok {\n		return int16(v.Value)\n	}\n	return 0\n','	v, ok := mapPack.Table[key].(*DecimalValue)\n	if ok && v.Value > 0 {\n		return int16(v.Value)\n	}\n	return 0\n')]),
('C25','catch','get-unchecked',[(MP,'	v, ok := mapPack.Table[key].(*BooleanValue)\n	if ok {\n		return v.Value\n	}\n	return false\n','	return mapPack.Table[key].(*BooleanValue).Value\n')]),
('C25','catch','get-default',[(MV,'	stringValue, ok := mapValue.Table[key].(*TextValue)\n	if ok {\n		return stringValue.Value\n	}\n	return ""','	stringValue, ok := mapValue.Table[key].(*TextValue)\n	if ok {\n		return stringValue.Value\n	}\n	return "nil"')]),
('C25','catch','list-shift',[(LV,'	value := listValue.Value[i]\n	v, ok := value.(*DecimalValue)\n	if ok {\n		return v.Value','	value := listValue.Value[len(listValue.Value)-1-i]\n	v, ok := value.(*DecimalValue)\n	if ok {\n		return v.Value')]),
('C25','catch','list-prepend',[(LV,'	listValue.Value = append(listValue.Value, NewTextValue(value))\n','	listValue.Value = append([]Value{NewTextValue(value)}, listValue.Value...)\n')]),
('C25','catch','list-lost',[(LV,'	listValue.Value = append(listValue.Value, NewBooleanValue(value))\n	return listValue','	l := append(listValue.Value, NewBooleanValue(value))\n	return &ListValue{Value: l}')]),
('C25','catch','list-drop',[(LV,'	listValue.Value = append(listValue.Value, value)\n','	if value != nil && value.GetValueType() != 0 {\n		listValue.Value = append(listValue.Value, value)\n	}\n')]),
('C25','catch','newlist-copy',[(MP,'	mapPack.Put(key, list)\n	return list\n','	mapPack.Put(key, list)\n	return NewListValue()\n')]),
('C25','catch','contains-inv',[(MP,'	if _, ok := mapPack.Table[key]; ok {\n		return true','	if v, ok := mapPack.Table[key]; ok && v != nil && v.GetValueType() != 0 {\n		return true')]),
('C25','catch','isempty-1',[(MV,'len(mapValue.Table) == 0','len(mapValue.Table) <= 1')]),
('C25','quiet','put-helper',[(MP,'	case int32:\n		mapPack.Table[key] = NewDecimalValue(int64(t))\n','	case int32:\n		mapPack.putInt(key, int64(t))\n'),(MP,None,'\nfunc (mapPack *MapPack) putInt(key string, v int64) {\n	mapPack.Table[key] = NewDecimalValue(v)\n}\n')]),
('C25','quiet','put-again',[(PC,'		pack.Data.Put(key, NewDecimalValue(int64(v)))\n	case int64:','		pack.Put(key, int64(v))\n	case int64:')]),
('C25','catch','put-again-narrow',[(PC,'	case uint64:\n		pack.Data.Put(key, NewDecimalValue(int64(v)))','	case uint64:\n		pack.Put(key, uint32(v))')]),
('C25','quiet','put-order',[(MP,'	case Value:\n		mapPack.Table[key] = t\n	case float32:\n		mapPack.Table[key] = NewFloatValue(t)\n	case float64:\n		mapPack.Table[key] = NewDoubleValue(t)\n','	case float64:\n		mapPack.Table[key] = NewDoubleValue(t)\n	case float32:\n		mapPack.Table[key] = NewFloatValue(t)\n	case Value:\n		mapPack.Table[key] = t\n')]),
('C25','quiet','put-tovalue',[(PC,'	switch v := any.(type) {\n	case int32:\n		pack.Data.Put(key, NewDecimalValue(int64(v)))\n','	table := pack.Data\n	switch v := any.(type) {\n	case int32:\n		table.Put(key, NewDecimalValue(int64(v)))\n')]),
('C25','quiet','put-val-var',[(PC,'	case string:\n		pack.Data.Put(key, NewTextValue(v))\n','	case string:\n		var t Value = NewTextValue(v)\n		pack.Data.Put(key, t)\n')]),
('C25','quiet','put-default-less',[(PC,'	case uint32:\n		pack.Data.Put(key, NewDecimalValue(int64(v)))\n	case uint64:\n		pack.Data.Put(key, NewDecimalValue(int64(v)))\n','')]),
('C25','quiet','put-nil',[(MP,'	switch t := any.(type) {\n	case string:','	if any == nil {\n		return\n	}\n	switch t := any.(type) {\n	case string:')]),
('C25','quiet','get-inverted',[(MP,'	v, ok := mapPack.Table[key].(*DecimalValue)\n	if ok {\n		return int16(v.Value)\n	}\n	return 0\n','	v, ok := mapPack.Table[key].(*DecimalValue)\n	if !ok {\n		return 0\n	}\n	return int16(v.Value)\n')]),
('C25','quiet','get-via64',[(MP,'	v, ok := mapPack.Table[key].(*DecimalValue)\n	if ok {\n		return int16(v.Value)\n	}\n	return 0\n','	return int16(mapPack.GetInt64(key))\n')]),
('C25','quiet','get-found',[(MV,'	v, ok := mapValue.Table[key].(*BooleanValue)\n	if ok {\n		return v.Value\n	}\n	return false','	e, found := mapValue.Table[key]\n	if !found {\n		return false\n	}\n	v, ok := e.(*BooleanValue)\n	return ok && v.Value')]),
('C25','quiet','get-switch',[(MV,'	stringValue, ok := mapValue.Table[key].(*TextValue)\n	if ok {\n		return stringValue.Value\n	}\n	return ""','	switch v := mapValue.Table[key].(type) {\n	case *TextValue:\n		return v.ToString()\n	}\n	return ""')]),
('C25','quiet','list-add-chain',[(LV,'	listValue.Value = append(listValue.Value, NewDecimalValue(int64(value)))\n	return listValue\n','	return listValue.Add(NewDecimalValue(int64(value)))\n')]),
('C25','quiet','list-lit',[(LV,'	listValue.Value = append(listValue.Value, NewTextValue(value))\n','	listValue.Value = append(listValue.Value, &TextValue{Value: value})\n')]),
('C25','quiet','contains-direct',[(MP,'	if _, ok := mapPack.Table[key]; ok {\n		return true\n	}\n	return false\n','	_, ok := mapPack.Table[key]\n	return ok\n')]),
('C25','quiet','isempty-direct',[(MV,'	if len(mapValue.Table) == 0 {\n		return true\n	}\n	return false\n','	return len(mapValue.Table) == 0\n')]),
('C25','quiet','newlist-order',[(MP,'	list := NewListValue()\n	mapPack.Put(key, list)\n	return list\n','	l := NewListValue()\n	mapPack.Table[key] = l\n	return l\n')]),
]
