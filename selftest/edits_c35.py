D='netio/dataproxy.go'
def body(cache,tt):
    return '	if name == "" {\n		return 0\n	}\n	hash := util.HashString(name)\n	if %s.Contains(hash) {\n		return hash\n	}\n	%s.AddKey(hash)\n	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.%s, hash, name})\n	return hash\n'%(cache,cache,tt)
S=body('serviceNameSent','SERVICE'); M=body('methodSent','METHOD'); L=body('loginSent','LOGIN'); DE=body('descSent','DESC')
GEN='\nfunc sendText(sent *lra.Cache, t texttype.TextType, name string) int32 {\n	if len(name) == 0 {\n		return 0\n	}\n	h := util.HashString(name)\n	if !sent.Contains(h) {\n		sent.AddKey(h)\n		udpsender.GetInstance().AddPack(&netdata.TextPack{Xtype: t, Hash: h, Text: name})\n	}\n	return h\n}\n'
ALL=[('serviceNameSent','SERVICE'),('hashMessageSent','HASH_MSG'),('objNameSent','OBJECT'),('refererSent','REFERER'),('userAgentSent','USER_AGENT'),('methodSent','METHOD'),('apicallSent','APICALL'),('errorSent','ERROR'),('loginSent','LOGIN'),('descSent','DESC'),('stackElementSent','STACK_ELEMENT')]
EDITS=[
('C35','catch','wrong-type',[(D,'texttype.USER_AGENT','texttype.REFERER')]),
('C35','catch','wrong-cache',[(D,M,M.replace('methodSent','apicallSent'))]),
('C35','catch','lookup-other',[(D,'methodSent.Contains','apicallSent.Contains')]),
('C35','catch','not-remembered',[(D,'	loginSent.AddKey(hash)\n','')]),
('C35','catch','never-sent',[(D,L,L.replace('	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name})\n',''))]),
('C35','catch','always-sent',[(D,'	if descSent.Contains(hash) {\n		return hash\n	}\n','')]),
('C35','catch','inverted',[(D,'if errorSent.Contains','if !errorSent.Contains')]),
('C35','catch','empty-sent',[(D,S,S.replace('	if name == "" {\n		return 0\n	}\n',''))]),
('C35','catch','empty-hash',[(D,S,S.replace('return 0','return -1'))]),
('C35','catch','lower',[(D,S,S.replace('HashString(name)','HashString(strings.ToLower(name))')),(D,'	"time"\n)','	"time"\n	"strings"\n)')]),
('C35','catch','truncated',[(D,S,S.replace('hash, name}','hash, name[:1]}'))]),
('C35','catch','return-zero-known',[(D,'	if stackElementSent.Contains(hash) {\n		return hash','	if stackElementSent.Contains(hash) {\n		return 0')]),
('C35','catch','reset-missing',[(D,'	hashMessageSent.Clear()\n','')]),
('C35','catch','reset-early',[(D,'func ResetTextSent() {\n','func ResetTextSent() {\n	if serviceNameSent.Empty() {\n		return\n	}\n')]),
('C35','catch','alias',[(D,'var descSent = lra.New(10000)','var descSent = loginSent')]),
('C35','catch','long-not-sent',[(D,S,S.replace('	serviceNameSent.AddKey','	if len(name) > 1000 {\n		return hash\n	}\n	serviceNameSent.AddKey'))]),
('C35','catch','premark',[(D,None,'\nfunc MarkSent(h int32) { serviceNameSent.AddKey(h) }\n')]),
('C35','catch','by-name',[(D,'	loginSent.AddKey(hash)\n','	loginSent.AddKey(name)\n')]),
('C35','quiet','generic',[(D,body(a,b),'	return sendText(%s, texttype.%s, name)\n'%(a,b)) for a,b in ALL]+[(D,None,GEN)]),
('C35','quiet','order',[(D,M,M.replace('	methodSent.AddKey(hash)\n','').replace('name})\n	return','name})\n	methodSent.AddKey(hash)\n	return'))]),
('C35','quiet','get',[(D,'if methodSent.Contains(hash) {','if methodSent.Get(hash) != nil {')]),
('C35','quiet','reset-loop',[(D,'	loginSent.Clear()\n	descSent.Clear()\n	stackElementSent.Clear()\n','	for _, c := range []*lra.Cache{loginSent, descSent, stackElementSent} {\n		c.Clear()\n	}\n')]),
('C35','quiet','positive',[(D,L,'	if name != "" {\n		hash := util.HashString(name)\n		if !loginSent.Contains(hash) {\n			pack := netdata.NewTextPack()\n			pack.Xtype = texttype.LOGIN\n			pack.Hash = hash\n			pack.Text = name\n			loginSent.AddKey(hash)\n			udpsender.GetInstance().AddPack(pack)\n		}\n		return hash\n	}\n	return 0\n')]),
('C35','quiet','capacity',[(D,'var loginSent = lra.New(10000)','var loginSent = lra.New(20000)')]),
]
