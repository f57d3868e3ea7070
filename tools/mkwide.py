#!/usr/bin/env python3
# Writes harness/sp/wide.go: very wide and very deep destination types.
o=["// Code generated by tools/mkwide.py. DO NOT EDIT.\n\npackage sp\n\n"]
kinds=["int","string","int8","*int","bool","[]string","map[string]int","float64","any","uint16","[2]int8","struct{ X, Y int }","*string","int64","[]byte","map[int]string"]
def wide(name,n,kinds,tag=None):
    o.append("// %s has %d fields.\ntype %s struct {\n"%(name,n,name))
    for i in range(n):
        t=""
        if tag and i%3: t=' `json:"%s"`'%(tag(i))
        o.append("\tF%d %s%s\n"%(i,kinds[i%len(kinds)],t))
    o.append("}\n\n")
wide("W70",70,kinds,lambda i:"f%d"%(i//2*2 if i%5==0 else i) if i%7 else "key_%d,omitempty"%i)
wide("W300",300,["int16","string","*int8","bool","float32"])
wide("W260",260,["struct{ A int; B string }","uint8","[]int"],lambda i:"n%d"%i)
t="struct{ Z int; S []string }"
for i in range(24): t="struct{ A%d int8; D %s; B%d string }"%(i,t,i) if i%3 else "struct{ D %s; B%d *int }"%(t,i)
o.append("// Deep24 is nested 24 levels deep.\ntype Deep24 %s\n\n"%t)
t="int16"
for i in range(20): t=["[]","map[string]","*","[2]"][i*7%4 if i else 0]+t
o.append("// Deep20 is nested 20 levels deep.\ntype Deep20 %s\n\n"%t)
o.append("// Ptr12 is a pointer to a pointer and so on.\ntype Ptr12 %sint\n\n"%("*"*12))
o.append("// Sl12 has 12 dimensions.\ntype Sl12 %sint8\n\n"%("[]"*12))
o.append("// Arr6 has 6 dimensions.\ntype Arr6 [2][1][3][2][1][2]int8\n\n")
o.append("// Big is larger than 64 kB.\ntype Big struct {\n\tA [9000]int64\n\tB string\n\tC *int\n}\n\n")
o.append("// BigSl has elements of 2 kB.\ntype BigSl []struct {\n\tA [250]int64\n\tB string\n}\n\n")
o.append("// BigMap has values of 2 kB.\ntype BigMap map[string]struct {\n\tA [500]int32\n\tB string\n\tC []*int\n}\n\n")
o.append("// RWide is recursive with many fields.\ntype RWide struct {\n")
for i in range(40): o.append("\tF%d %s\n"%(i,["int","*RWide","string","[]RWide","map[string]RWide","[]*RWide","*int"][i%7]))
o.append("}\n")
for n,o1 in (("RW300","RW280"),("RW280","RW300")):
    o.append("\n// %s is recursive, also through %s, after many containers.\ntype %s struct {\n"%(n,o1,n))
    for i in range(int(n[2:])): o.append("\tF%d %s\n"%(i,["[]int","struct{}","map[string]int8","[2]bool","struct{ A int }","[]string"][i%6]))
    o.append("\tP *%s\n\tL []%s\n\tM map[string]%s\n\tO *%s\n\tQ []*%s\n\tZ int\n}\n"%(n,n,n,o1,o1))
open("/verif/harness/sp/wide.go","w").write("".join(o))
