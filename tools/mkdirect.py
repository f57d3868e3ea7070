#!/usr/bin/env python3
# Writes harness/types/d1/reg.go and d2/reg.go: hand-picked destination types.
sc="bool string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64".split()
direct=[];ptr=[]
direct+=sc
direct+=["any","struct{}","jd.Number"]
direct+=["sp.NStr","sp.NInt","sp.NI8","sp.NU8","sp.NF32","sp.NBool","sp.NAny"]
direct+=["[]"+s for s in sc]
direct+=["[]any","[]struct{}","[]jd.Number","[]sp.NStr","[]sp.NInt","[]sp.NU8","[]sp.NBool"]
ptr+=["[]sp.NI8","[]sp.NI16","[]sp.NU64","[]sp.NF32","[]sp.NF64","sp.NSl","sp.NMap","sp.NSS","sp.NEmp","[]sp.NEmp"]
direct+=["[0]int","[3]int","[1]string","[4]bool","[2]any","[2][3]int8","[3][0]int","[2]struct{}","[300]uint8"]
ptr+=["[%d]%s"%(n,s) for n,s in [(2,"int16"),(3,"float32"),(5,"uint64"),(2,"jd.Number"),(2,"*int"),(2,"[]string"),(2,"map[string]int"),(3,"struct{A int8; B string}"),(2,"[2][2]string"),(1,"struct{}"),(4,"sp.NStr"),(2,"sp.UJ"),(2,"sp.UT"),(1,"[1][1]int"),(70,"string"),(2,"[]struct{}"),(3,"[]struct{A *int}")]]
direct+=["[][]int","[][]bool","[][][]string","[][2]int","[]*int","[][]struct{}","[][0]int","[]map[string]int"]
ptr+=["[][]%s"%s for s in sc if s not in("int","bool")]
ptr+=["[][3]string","[]**string","[]map[int][]string","[][]any","[]*[]int","[]*struct{A int}","[]struct{A int; B []string}","[]struct{A,B,C int8}","[]struct{A struct{B struct{C []int}}}","[]struct{M map[string]int}","[][1]struct{X *int8}","[]struct{_ int8; A int32; B bool}","[][]map[string][]int","[]struct{A [0]int; B int}","[]struct{A struct{}}"]
K="string sp.NStr int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 sp.NInt sp.KT sp.KTStr sp.KTInt sp.KTArr".split()
direct+=["map[string]int","map[string]string","map[string]any","map[int]string","map[string][]int","map[string]map[string]int","map[sp.KT]int","map[string]struct{A int; B string}"]
ptr+=["map[%s]%s"%(k,v) for k in K for v in ("int","string","[]string")]
ptr+=["map[string]%s"%v for v in "bool int8 uint8 uint16 float32 float64 jd.Number struct{} *int **string [2]int [0]int [20]int64 []any []byte sp.NStr sp.NBool sp.UJ *sp.UJ sp.UT *sp.UT sp.UJStr sp.UTStr sp.UJEmpty [2]string [3]*int map[int]map[uint8]string".split()]
ptr+=["map[jd.Number]int","map[string]struct{A [40]int32; B string}","map[string]struct{P *int; M map[string]string; S []int}","map[string][2]struct{A int}","map[int8][]map[int8]int8","map[sp.NStr]sp.NStr","map[sp.KTStr]sp.UTStr","map[sp.UTStr]string","map[sp.UJStr]string","map[string]*struct{A int; B *string}","map[uint64]any"]
ptr+=["map[%s]%s"%(k,v) for k,v in [("int8","[4]int64"),("uint16","float64"),("int64","struct{A,B string}"),("sp.KT","map[sp.KT]string"),("sp.KTInt","*int")]]
direct+=["*int","**int","*string","*any","*struct{}","*[]int","*map[string]int","***bool","*[2]int"]
ptr+=["*%s"%s for s in sc if s not in("int","string")]+["*jd.Number","**[]*int","**struct{A *int}","*sp.NStr","**any","***[]string","*[0]int","**struct{}"]
U="UJ UJStr UJInt UJBool UJF UJSlice UJMap UJEmpty UJArr UBoth UJPtrs UJU8 UT UTStr UTInt UTI8 UTBool UTF UTSlice UTEmpty UTMap UTArr".split()
direct+=["sp."+u for u in U if u in "UJ UJStr UJMap UT UTStr UTSlice UTEmpty UBoth".split()]+["*sp.UJ","*sp.UT","**sp.UJ","[]sp.UJ","[]*sp.UJ","[]sp.UT"]
for u in U:
    ptr+=["sp."+u,"[]sp."+u,"[]*sp."+u,"[2]sp."+u,"map[string]sp."+u,"map[int]*sp."+u,"struct{A int; U sp.%s; B string}"%u,"struct{A int; U *sp.%s; V **sp.%s; B string}"%(u,u)]
ptr+=["**sp."+u for u in U]+["map[string]map[string]sp.UJ","[][]sp.UT","[]json.RawMessage","map[string]json.RawMessage","struct{A json.RawMessage; B *json.RawMessage; T time.Time; P *time.Time; I big.Int; J *big.Int; N net.IP}"]
direct+=["json.RawMessage","time.Time"]
# structs
S=["struct{A int}","struct{A int; B string}","struct{A,B,C int}","struct{A,B,C,D int8}","struct{A,B,C,D,E string}",
"struct{A,B,C,D,E,F,G,H int}","struct{A,B,C,D,E,F,G,H,I bool}","struct{A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z int16}",
'struct{A int `json:"a"`; B int `json:"A"`; C int `json:"b"`; D int `json:"B"`}',
'struct{Foo int; FOO int; FoO string; Foo1 int `json:"fOO"`}',
'struct{K int `json:"k"`; S string `json:"s"`; Kk []int `json:"kk"`; Ss any `json:"ſs"`; T int `json:"K"`}',
'struct{A int `json:"größe"`; B int `json:"ÄÖÜ"`; C int `json:"π"`; D int `json:"ж"`}',
'struct{A int `json:"B"`; B int; C string}','struct{A int `json:"x"`; B int `json:"x"`; C string}','struct{A int `json:"x"`; B int `json:"x"`; X string `json:"x,omitempty"`; D []int `json:"d"`}','struct{A int `json:"-"`; B int `json:"A"`; C int `json:"b"`; D int `json:"D"`; d string}',
'struct{Hidden int `json:"-"`; Dash int `json:"-,"`; X int `json:",omitempty"`; Y int `json:"y,omitempty"`; z int}',
'struct{a int; B int; c string; D string; e []int}',
'struct{ID int `json:"\\u0069\\u0064"`; Name string `json:"na\\u006de"`; T int `json:"a\\tb"`}',
'struct{A string `json:"foo_bar"`; B string `json:"foo-bar"`; C string `json:"foo.bar"`; D string `json:"foo bar"`; E string `json:"foo/bar"`}',
'struct{Ab string `json:"ab"`; Abc string `json:"abc"`; Abcd string `json:"abcd"`; Abcde string `json:"abcde"`; Abcdef string `json:"abcdef"`}',
"struct{A *int; B int}","struct{A *int; B *string; C *[]int; D *struct{E *int; F int}; G int}","struct{A **int; B string}","struct{P *struct{}; Q int}",
"struct{A []int; B int}","struct{A [2]int; B int; C [3]string; D string}","struct{A map[string]int; B int}","struct{A map[string]string; B string; C map[string]any}",
"struct{A struct{B struct{C struct{D int; E string}; F int}; G int}; H int}","struct{E struct{}; A int; F struct{}; B string; G struct{}}",
"struct{A any; B []any; C map[string]any; D *any; E int}","struct{A [0]int; B int; C [0]struct{X int}}","struct{A []struct{B []struct{C []int; D int}; E int}; F int}",
"struct{A []struct{}; B int; C map[string]struct{}; D [2]struct{}; E int}","struct{A bool; B int8; C bool; D int64; E uint8; F float32; G string; H uint16; I float64}",
"struct{A []byte; B []sp.NU8; C [3]byte; D int}","struct{A jd.Number; B *jd.Number; C []jd.Number; D map[string]jd.Number; E [1]jd.Number; F int}",
"struct{A []map[string][]*struct{B map[int]string; C int}; D string}","struct{A, B, C, D, E, F, G, H struct{X, Y int}; I int}",
"struct{A int32; B [5]struct{X int8; Y string}; C int32}","struct{A map[string]struct{B map[string]struct{C int; D string}; E int}; F int}",
"struct{X struct{A int `json:\"v\"`}; Y []struct{B int `json:\"v\"`}; V int `json:\"v\"`}",
]
direct+=S[0:2]+S[5:7]+[S[8],S[17],S[20],S[24],S[25],S[26]]
ptr+=S
for s in sc+["sp.NStr","sp.NInt","sp.NBool","sp.NF32","sp.NU8"]:
    ptr.append('struct{X int; A %s `json:",string"`; B %s `json:"b,string"`; C %s `json:"c,omitempty,string"`; D *%s `json:"d,string"`; E string}'%(s,s,s,s))
ptr.append('struct{A []int `json:",string"`; B map[string]int `json:",string"`; C any `json:",string"`; D struct{X int} `json:",string"`; E [2]int `json:"e,string"`; F int `json:",string"`}')
ptr.append('struct{A **int `json:"a,string"`; B *struct{X int} `json:",string"`; F *string `json:",string"`}')
R="RPtr RPtrFirst RSlice RSliceFirst RMap RMapFirst RMix RPtrSlice RPtrMap RMapSlice RSliceMap RSliceSlice RArr RArrMap RArrSlice RNest RPP RPSl RPMap RA RB RC RD RSib RSibRec RIntMap RTextKey RAny RUnm RStrTag ROuter RSelfU RTwo RBig RMany RLinks RTag RDeep3".split()
for r in R:
    ptr+=["sp."+r,"[]sp."+r,"[2]sp."+r,"map[string]sp."+r,"struct{X int; A sp.%s; B []sp.%s; C *sp.%s; D map[string]sp.%s; Y string}"%(r,r,r,r),"struct{X int; C *sp.%s; B []*sp.%s; A sp.%s; Y string}"%(r,r,r)]
direct+=["sp.RPtr","sp.RSlice","sp.RMap","sp.RMix","[]sp.RSlice","map[string]sp.RMap","[]sp.RPtr","[2]sp.RMix","sp.RNest","sp.RSibRec","sp.RA"]
W="W70 W300 W260 Deep24 Deep20 Ptr12 Sl12 Arr6 Big BigSl BigMap RWide RW300 RW280".split()
ptr+=["sp."+w for w in W]+["[]sp.W70","map[string]sp.W300","*sp.W260","[]sp.Big","map[int]sp.Big","struct{A int; B sp.Big; C []sp.RWide; D string}"]
direct+=["json.Number","[]json.Number","sp.NNum"]
ptr+=["map[string]json.Number","map[json.Number]json.Number","[2]*json.Number","struct{A json.Number; B *json.Number; C []json.Number; D jd.Number; E sp.NNum; F []sp.NNum; G map[string]json.Number}","map[sp.NStr]sp.NNum","map[json.Number]sp.NNum"]
# Pointers to every scalar side by side
for v in sc+["any","sp.NStr","sp.NBool","struct{}"]:
    ptr+=["[]*"+v,"map[string]*"+v,"struct{A, B *%s; C [2]*%s; D int}"%(v,v)]
# Names that differ by letter case only: every number of such fields, before and after others
cases=["abcd","Abcd","aBcd","abCd","abcD","ABcd","AbCd","AbcD","aBCd","aBcD"]
for n in (2,3,5,6,7,9):
    ptr.append("struct{"+"; ".join('F%d int8 `json:"%s"`'%(i,c) for i,c in enumerate(cases[:n]))+"}")
ptr+=['struct{X, Y, Z string; F0 int `json:"wxyz"`; F1 int `json:"WXYZ"`; F2 int `json:"wxYZ"`}','struct{F0 int `json:"wxyz"`; X string; F1 []int `json:"WXYZ"`; Y, Z string; F2 *int `json:"wxYZ"`}',
'struct{A *struct{F0 int `json:"no"`; F1 int `json:"NO"`}; B []struct{F0 int `json:"NO"`; F1 int `json:"no"`; X, Y int}}']
# Names encoding/json writes with escapes
ptr+=['struct{A int `json:"<>"`}','struct{A int `json:"<&-&>"`; B int `json:"a<b"`}','struct{A string `json:"<<<<<<<<<<<<<<<<"`; B []int `json:"&"`; C string `json:"%s"`}'%("&<>"*30),'struct{A map[string]*struct{B int `json:"&&&"`}; C struct{D int `json:">>>>"`} `json:"<"`}']
# Long names
ptr+=['struct{A int `json:"%s"`; B string `json:"%s"`; C []int `json:"%s"`}'%("a"*31,"b"*32,"C"*33),'struct{A int `json:"%s"`; B string `json:"%s"`; C int `json:"%s"`}'%("n"*300,"n"*299+"N","n"*1000),'struct{A int `json:"%s"`; B string}'%("\u00e9\u4e16"*40)]
def emit(pkg,items):
    out=["// Code generated by tools/mkdirect.py. DO NOT EDIT.\n\npackage %s\n\nimport (\n\t\"encoding/json\"\n\t\"math/big\"\n\t\"net\"\n\t\"time\"\n\n\tjd \"github.com/romshark/jscan-experimental-decoder\"\n\t\"verif/harness/hv\"\n\t\"verif/harness/sp\"\n)\n\nvar (\n\t_ json.RawMessage\n\t_ big.Int\n\t_ net.IP\n\t_ time.Time\n\t_ jd.Number\n\t_ sp.UJ\n)\n\nfunc init() {\n"%pkg]
    seen=set()
    for t in items:
        if t in seen: continue
        seen.add(t)
        name="`"+t+"`" if "`" not in t else '"'+t.replace('\\','\\\\').replace('"','\\"')+'"'
        if "jd.Number" in t: out.append("\thv.Reg[%s, %s](%s)\n"%(t,t.replace("jd.Number","json.Number"),name))
        else: out.append("\thv.D[%s](%s)\n"%(t,name))
    out.append("}\n")
    open("/verif/harness/types/%s/reg.go"%pkg,"w").write("".join(out))
    return len(seen)
n1=emit("d1",direct)
n2=emit("d2",["*"+t for t in ptr])
print(n1,n2)
