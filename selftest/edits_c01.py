N='common/netdata/'
EDITS=[
('C01','catch','swap',[(N+'xlogpack.go','o.WriteDecimal32(p.Login)\n\to.WriteDecimal32(p.Desc)','o.WriteDecimal32(p.Desc)\n\to.WriteDecimal32(p.Login)')]),
('C01','catch','drop',[(N+'xlogpack.go','o.WriteBoolean(p.B3Mode)\n','')]),
('C01','catch','width',[(N+'alertpack.go','out.WriteInt32(p.ObjHash)','out.WriteDecimal32(p.ObjHash)')]),
('C01','catch','trunc',[(N+'objectpack.go','out.WriteDecimal(objectPack.Wakeup)\n\t_, err = out.WriteValue','out.WriteDecimal(int64(int32(objectPack.Wakeup)))\n\t_, err = out.WriteValue')]),
('C01','catch','opt',[(N+'apicallstep.go','s.Opt == 1','s.Opt == 0')]),
('C01','catch','optaddr',[(N+'apicallstep.go','s.Opt == 1','s.Address != ""')]),
('C01','catch','mapskip',[(N+'mapvalue.go','for key, value := range mapValue.Table {\n','for key, value := range mapValue.Table {\n\t\tif value == nil {\n\t\t\tcontinue\n\t\t}\n')]),
('C01','catch','condfield',[(N+'textpack.go','_, err = out.WriteString(p.Text)','if p.Text != "" {\n\t\t_, err = out.WriteString(p.Text)\n\t}')]),
('C01','catch','hdr',[(N+'step.go','_, err = out.WriteDecimal32(ss.Parent)\n\t_, err = out.WriteDecimal32(ss.Index)','_, err = out.WriteDecimal32(ss.Index)\n\t_, err = out.WriteDecimal32(ss.Parent)')]),
('C01','catch','stepsnil',[(N+'step.go','if step != nil {\n\t\t\tdout.WriteStep(step)','if step != nil && step.GetOrder() != 0 {\n\t\t\tdout.WriteStep(step)')]),
('C01','catch','sep',[(N+'pmessagestep.go','b.WriteString(s)\n\t\tb.WriteByte(delimETX)','b.WriteByte(delimETX)\n\t\tb.WriteString(s)')]),
('C01','catch','sep2',[(N+'pmessagestep.go','b.WriteString(s)\n','if s == "" {\n\t\t\tcontinue\n\t\t}\n\t\tb.WriteString(s)\n')]),
('C01','catch','listlen',[(N+'listvalue.go','for i := 0; i < valueSize; i++ {\n\t\t_, err = out','for i := 1; i < valueSize; i++ {\n\t\t_, err = out')]),
('C01','catch','tag',[(N+'textpack.go','packconstants.TEXT','packconstants.ALERT')]),
('C01','catch','tagconst',[('common/constants/packconstant/packconstants.go','70','71')]),
('C01','catch','writevalue',[(N+'dataoutputx.go','if value == nil {\n\t\tvalue = NewNilValue()\n\t}\n\t_, err := out.WriteUInt8(uint8(value.GetValueType()))','if value == nil {\n\t\tout.WriteUInt8(0)\n\t\tvalue = NewNilValue()\n\t}\n\t_, err := out.WriteUInt8(uint8(value.GetValueType()))')]),
('C01','catch','outerbuf',[(N+'xlogpack.go','o.WriteBoolean(p.B3Mode)','out.WriteBoolean(p.B3Mode)')]),
('C01','quiet','helper',[(N+'objectpack.go','''	_, err = out.WriteString(objectPack.ObjType)
	_, err = out.WriteDecimal32(objectPack.ObjHash)
	_, err = out.WriteString(objectPack.ObjName)
	_, err = out.WriteString(objectPack.Address)
	_, err = out.WriteString(objectPack.Version)
	_, err = out.WriteBoolean(objectPack.Alive)
	_, err = out.WriteDecimal(objectPack.Wakeup)
	_, err = out.WriteInt8''','''	err = hdr(out, objectPack.ObjType, objectPack.ObjHash, objectPack.ObjName, objectPack.Address)
	for _, s := range []string{"x"} {
		_ = s
	}
	_, err = out.WriteString(objectPack.Version)
	_, err = out.WriteBoolean(objectPack.Alive)
	_, err = out.WriteDecimal(objectPack.Wakeup)
	_, err = out.WriteInt8'''),(N+'objectpack.go',None,'''
func hdr(o *DataOutputX, t string, h int32, n, a string) error {
	if _, err := o.WriteString(t); err != nil {
		return err
	}
	o.WriteDecimal(int64(h))
	o.WriteString(n)
	_, err := o.WriteString(a)
	return err
}
''')]),
('C01','quiet','mapkeys',[(N+'mapvalue.go','for key, value := range mapValue.Table {\n\t\t_, err = out.WriteString(key)\n\t\t_, err = out.WriteValue(value)','for key := range mapValue.Table {\n\t\tif _, err = out.WriteString(key); err != nil {\n\t\t\treturn err\n\t\t}\n\t\t_, err = out.WriteValue(mapValue.Table[key])')]),
('C01','quiet','listrange',[(N+'listvalue.go','for i := 0; i < valueSize; i++ {\n\t\t_, err = out.WriteValue(listValue.Value[i])','for _, v := range listValue.Value {\n\t\t_, err = out.WriteValue(v)')]),
('C01','quiet','steps-continue',[(N+'step.go','if step != nil {\n\t\t\tdout.WriteStep(step)\n\t\t}','if step == nil {\n\t\t\tcontinue\n\t\t}\n\t\tdout.WriteStep(step)')]),
('C01','quiet','steps-index',[(N+'step.go','for _, step := range steps {\n','for i := 0; i < len(steps); i++ {\n\t\tstep := steps[i]\n')]),
('C01','quiet','sep-chain',[(N+'pmessagestep.go','for _, s := range params {\n\t\tb.WriteString(s)','for i := range params {\n\t\tb.WriteString(params[i])')]),
('C01','quiet','api-switch',[(N+'apicallstep.go','if s.Opt == 1 {\n\t\t_, err = out.WriteString(s.Address)\n\t}','switch s.Opt {\n\tcase 1:\n\t\t_, err = out.WriteString(s.Address)\n\tdefault:\n\t}')]),
('C01','quiet','api-neg',[(N+'apicallstep.go','if s.Opt == 1 {\n\t\t_, err = out.WriteString(s.Address)\n\t}\n','if s.Opt != 1 {\n\t\treturn err\n\t}\n\t_, err = out.WriteString(s.Address)\n')]),
]
