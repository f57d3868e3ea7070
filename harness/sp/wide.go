// Code generated by tools/mkwide.py. DO NOT EDIT.

package sp

// W70 has 70 fields.
type W70 struct {
	F0 int
	F1 string `json:"f1"`
	F2 int8 `json:"f2"`
	F3 *int
	F4 bool `json:"f4"`
	F5 []string `json:"f4"`
	F6 map[string]int
	F7 float64 `json:"key_7,omitempty"`
	F8 any `json:"f8"`
	F9 uint16
	F10 [2]int8 `json:"f10"`
	F11 struct{ X, Y int } `json:"f11"`
	F12 *string
	F13 int64 `json:"f13"`
	F14 []byte `json:"key_14,omitempty"`
	F15 map[int]string
	F16 int `json:"f16"`
	F17 string `json:"f17"`
	F18 int8
	F19 *int `json:"f19"`
	F20 bool `json:"f20"`
	F21 []string
	F22 map[string]int `json:"f22"`
	F23 float64 `json:"f23"`
	F24 any
	F25 uint16 `json:"f24"`
	F26 [2]int8 `json:"f26"`
	F27 struct{ X, Y int }
	F28 *string `json:"key_28,omitempty"`
	F29 int64 `json:"f29"`
	F30 []byte
	F31 map[int]string `json:"f31"`
	F32 int `json:"f32"`
	F33 string
	F34 int8 `json:"f34"`
	F35 *int `json:"key_35,omitempty"`
	F36 bool
	F37 []string `json:"f37"`
	F38 map[string]int `json:"f38"`
	F39 float64
	F40 any `json:"f40"`
	F41 uint16 `json:"f41"`
	F42 [2]int8
	F43 struct{ X, Y int } `json:"f43"`
	F44 *string `json:"f44"`
	F45 int64
	F46 []byte `json:"f46"`
	F47 map[int]string `json:"f47"`
	F48 int
	F49 string `json:"key_49,omitempty"`
	F50 int8 `json:"f50"`
	F51 *int
	F52 bool `json:"f52"`
	F53 []string `json:"f53"`
	F54 map[string]int
	F55 float64 `json:"f54"`
	F56 any `json:"key_56,omitempty"`
	F57 uint16
	F58 [2]int8 `json:"f58"`
	F59 struct{ X, Y int } `json:"f59"`
	F60 *string
	F61 int64 `json:"f61"`
	F62 []byte `json:"f62"`
	F63 map[int]string
	F64 int `json:"f64"`
	F65 string `json:"f64"`
	F66 int8
	F67 *int `json:"f67"`
	F68 bool `json:"f68"`
	F69 []string
}

// W300 has 300 fields.
type W300 struct {
	F0 int16
	F1 string
	F2 *int8
	F3 bool
	F4 float32
	F5 int16
	F6 string
	F7 *int8
	F8 bool
	F9 float32
	F10 int16
	F11 string
	F12 *int8
	F13 bool
	F14 float32
	F15 int16
	F16 string
	F17 *int8
	F18 bool
	F19 float32
	F20 int16
	F21 string
	F22 *int8
	F23 bool
	F24 float32
	F25 int16
	F26 string
	F27 *int8
	F28 bool
	F29 float32
	F30 int16
	F31 string
	F32 *int8
	F33 bool
	F34 float32
	F35 int16
	F36 string
	F37 *int8
	F38 bool
	F39 float32
	F40 int16
	F41 string
	F42 *int8
	F43 bool
	F44 float32
	F45 int16
	F46 string
	F47 *int8
	F48 bool
	F49 float32
	F50 int16
	F51 string
	F52 *int8
	F53 bool
	F54 float32
	F55 int16
	F56 string
	F57 *int8
	F58 bool
	F59 float32
	F60 int16
	F61 string
	F62 *int8
	F63 bool
	F64 float32
	F65 int16
	F66 string
	F67 *int8
	F68 bool
	F69 float32
	F70 int16
	F71 string
	F72 *int8
	F73 bool
	F74 float32
	F75 int16
	F76 string
	F77 *int8
	F78 bool
	F79 float32
	F80 int16
	F81 string
	F82 *int8
	F83 bool
	F84 float32
	F85 int16
	F86 string
	F87 *int8
	F88 bool
	F89 float32
	F90 int16
	F91 string
	F92 *int8
	F93 bool
	F94 float32
	F95 int16
	F96 string
	F97 *int8
	F98 bool
	F99 float32
	F100 int16
	F101 string
	F102 *int8
	F103 bool
	F104 float32
	F105 int16
	F106 string
	F107 *int8
	F108 bool
	F109 float32
	F110 int16
	F111 string
	F112 *int8
	F113 bool
	F114 float32
	F115 int16
	F116 string
	F117 *int8
	F118 bool
	F119 float32
	F120 int16
	F121 string
	F122 *int8
	F123 bool
	F124 float32
	F125 int16
	F126 string
	F127 *int8
	F128 bool
	F129 float32
	F130 int16
	F131 string
	F132 *int8
	F133 bool
	F134 float32
	F135 int16
	F136 string
	F137 *int8
	F138 bool
	F139 float32
	F140 int16
	F141 string
	F142 *int8
	F143 bool
	F144 float32
	F145 int16
	F146 string
	F147 *int8
	F148 bool
	F149 float32
	F150 int16
	F151 string
	F152 *int8
	F153 bool
	F154 float32
	F155 int16
	F156 string
	F157 *int8
	F158 bool
	F159 float32
	F160 int16
	F161 string
	F162 *int8
	F163 bool
	F164 float32
	F165 int16
	F166 string
	F167 *int8
	F168 bool
	F169 float32
	F170 int16
	F171 string
	F172 *int8
	F173 bool
	F174 float32
	F175 int16
	F176 string
	F177 *int8
	F178 bool
	F179 float32
	F180 int16
	F181 string
	F182 *int8
	F183 bool
	F184 float32
	F185 int16
	F186 string
	F187 *int8
	F188 bool
	F189 float32
	F190 int16
	F191 string
	F192 *int8
	F193 bool
	F194 float32
	F195 int16
	F196 string
	F197 *int8
	F198 bool
	F199 float32
	F200 int16
	F201 string
	F202 *int8
	F203 bool
	F204 float32
	F205 int16
	F206 string
	F207 *int8
	F208 bool
	F209 float32
	F210 int16
	F211 string
	F212 *int8
	F213 bool
	F214 float32
	F215 int16
	F216 string
	F217 *int8
	F218 bool
	F219 float32
	F220 int16
	F221 string
	F222 *int8
	F223 bool
	F224 float32
	F225 int16
	F226 string
	F227 *int8
	F228 bool
	F229 float32
	F230 int16
	F231 string
	F232 *int8
	F233 bool
	F234 float32
	F235 int16
	F236 string
	F237 *int8
	F238 bool
	F239 float32
	F240 int16
	F241 string
	F242 *int8
	F243 bool
	F244 float32
	F245 int16
	F246 string
	F247 *int8
	F248 bool
	F249 float32
	F250 int16
	F251 string
	F252 *int8
	F253 bool
	F254 float32
	F255 int16
	F256 string
	F257 *int8
	F258 bool
	F259 float32
	F260 int16
	F261 string
	F262 *int8
	F263 bool
	F264 float32
	F265 int16
	F266 string
	F267 *int8
	F268 bool
	F269 float32
	F270 int16
	F271 string
	F272 *int8
	F273 bool
	F274 float32
	F275 int16
	F276 string
	F277 *int8
	F278 bool
	F279 float32
	F280 int16
	F281 string
	F282 *int8
	F283 bool
	F284 float32
	F285 int16
	F286 string
	F287 *int8
	F288 bool
	F289 float32
	F290 int16
	F291 string
	F292 *int8
	F293 bool
	F294 float32
	F295 int16
	F296 string
	F297 *int8
	F298 bool
	F299 float32
}

// W260 has 260 fields.
type W260 struct {
	F0 struct{ A int; B string }
	F1 uint8 `json:"n1"`
	F2 []int `json:"n2"`
	F3 struct{ A int; B string }
	F4 uint8 `json:"n4"`
	F5 []int `json:"n5"`
	F6 struct{ A int; B string }
	F7 uint8 `json:"n7"`
	F8 []int `json:"n8"`
	F9 struct{ A int; B string }
	F10 uint8 `json:"n10"`
	F11 []int `json:"n11"`
	F12 struct{ A int; B string }
	F13 uint8 `json:"n13"`
	F14 []int `json:"n14"`
	F15 struct{ A int; B string }
	F16 uint8 `json:"n16"`
	F17 []int `json:"n17"`
	F18 struct{ A int; B string }
	F19 uint8 `json:"n19"`
	F20 []int `json:"n20"`
	F21 struct{ A int; B string }
	F22 uint8 `json:"n22"`
	F23 []int `json:"n23"`
	F24 struct{ A int; B string }
	F25 uint8 `json:"n25"`
	F26 []int `json:"n26"`
	F27 struct{ A int; B string }
	F28 uint8 `json:"n28"`
	F29 []int `json:"n29"`
	F30 struct{ A int; B string }
	F31 uint8 `json:"n31"`
	F32 []int `json:"n32"`
	F33 struct{ A int; B string }
	F34 uint8 `json:"n34"`
	F35 []int `json:"n35"`
	F36 struct{ A int; B string }
	F37 uint8 `json:"n37"`
	F38 []int `json:"n38"`
	F39 struct{ A int; B string }
	F40 uint8 `json:"n40"`
	F41 []int `json:"n41"`
	F42 struct{ A int; B string }
	F43 uint8 `json:"n43"`
	F44 []int `json:"n44"`
	F45 struct{ A int; B string }
	F46 uint8 `json:"n46"`
	F47 []int `json:"n47"`
	F48 struct{ A int; B string }
	F49 uint8 `json:"n49"`
	F50 []int `json:"n50"`
	F51 struct{ A int; B string }
	F52 uint8 `json:"n52"`
	F53 []int `json:"n53"`
	F54 struct{ A int; B string }
	F55 uint8 `json:"n55"`
	F56 []int `json:"n56"`
	F57 struct{ A int; B string }
	F58 uint8 `json:"n58"`
	F59 []int `json:"n59"`
	F60 struct{ A int; B string }
	F61 uint8 `json:"n61"`
	F62 []int `json:"n62"`
	F63 struct{ A int; B string }
	F64 uint8 `json:"n64"`
	F65 []int `json:"n65"`
	F66 struct{ A int; B string }
	F67 uint8 `json:"n67"`
	F68 []int `json:"n68"`
	F69 struct{ A int; B string }
	F70 uint8 `json:"n70"`
	F71 []int `json:"n71"`
	F72 struct{ A int; B string }
	F73 uint8 `json:"n73"`
	F74 []int `json:"n74"`
	F75 struct{ A int; B string }
	F76 uint8 `json:"n76"`
	F77 []int `json:"n77"`
	F78 struct{ A int; B string }
	F79 uint8 `json:"n79"`
	F80 []int `json:"n80"`
	F81 struct{ A int; B string }
	F82 uint8 `json:"n82"`
	F83 []int `json:"n83"`
	F84 struct{ A int; B string }
	F85 uint8 `json:"n85"`
	F86 []int `json:"n86"`
	F87 struct{ A int; B string }
	F88 uint8 `json:"n88"`
	F89 []int `json:"n89"`
	F90 struct{ A int; B string }
	F91 uint8 `json:"n91"`
	F92 []int `json:"n92"`
	F93 struct{ A int; B string }
	F94 uint8 `json:"n94"`
	F95 []int `json:"n95"`
	F96 struct{ A int; B string }
	F97 uint8 `json:"n97"`
	F98 []int `json:"n98"`
	F99 struct{ A int; B string }
	F100 uint8 `json:"n100"`
	F101 []int `json:"n101"`
	F102 struct{ A int; B string }
	F103 uint8 `json:"n103"`
	F104 []int `json:"n104"`
	F105 struct{ A int; B string }
	F106 uint8 `json:"n106"`
	F107 []int `json:"n107"`
	F108 struct{ A int; B string }
	F109 uint8 `json:"n109"`
	F110 []int `json:"n110"`
	F111 struct{ A int; B string }
	F112 uint8 `json:"n112"`
	F113 []int `json:"n113"`
	F114 struct{ A int; B string }
	F115 uint8 `json:"n115"`
	F116 []int `json:"n116"`
	F117 struct{ A int; B string }
	F118 uint8 `json:"n118"`
	F119 []int `json:"n119"`
	F120 struct{ A int; B string }
	F121 uint8 `json:"n121"`
	F122 []int `json:"n122"`
	F123 struct{ A int; B string }
	F124 uint8 `json:"n124"`
	F125 []int `json:"n125"`
	F126 struct{ A int; B string }
	F127 uint8 `json:"n127"`
	F128 []int `json:"n128"`
	F129 struct{ A int; B string }
	F130 uint8 `json:"n130"`
	F131 []int `json:"n131"`
	F132 struct{ A int; B string }
	F133 uint8 `json:"n133"`
	F134 []int `json:"n134"`
	F135 struct{ A int; B string }
	F136 uint8 `json:"n136"`
	F137 []int `json:"n137"`
	F138 struct{ A int; B string }
	F139 uint8 `json:"n139"`
	F140 []int `json:"n140"`
	F141 struct{ A int; B string }
	F142 uint8 `json:"n142"`
	F143 []int `json:"n143"`
	F144 struct{ A int; B string }
	F145 uint8 `json:"n145"`
	F146 []int `json:"n146"`
	F147 struct{ A int; B string }
	F148 uint8 `json:"n148"`
	F149 []int `json:"n149"`
	F150 struct{ A int; B string }
	F151 uint8 `json:"n151"`
	F152 []int `json:"n152"`
	F153 struct{ A int; B string }
	F154 uint8 `json:"n154"`
	F155 []int `json:"n155"`
	F156 struct{ A int; B string }
	F157 uint8 `json:"n157"`
	F158 []int `json:"n158"`
	F159 struct{ A int; B string }
	F160 uint8 `json:"n160"`
	F161 []int `json:"n161"`
	F162 struct{ A int; B string }
	F163 uint8 `json:"n163"`
	F164 []int `json:"n164"`
	F165 struct{ A int; B string }
	F166 uint8 `json:"n166"`
	F167 []int `json:"n167"`
	F168 struct{ A int; B string }
	F169 uint8 `json:"n169"`
	F170 []int `json:"n170"`
	F171 struct{ A int; B string }
	F172 uint8 `json:"n172"`
	F173 []int `json:"n173"`
	F174 struct{ A int; B string }
	F175 uint8 `json:"n175"`
	F176 []int `json:"n176"`
	F177 struct{ A int; B string }
	F178 uint8 `json:"n178"`
	F179 []int `json:"n179"`
	F180 struct{ A int; B string }
	F181 uint8 `json:"n181"`
	F182 []int `json:"n182"`
	F183 struct{ A int; B string }
	F184 uint8 `json:"n184"`
	F185 []int `json:"n185"`
	F186 struct{ A int; B string }
	F187 uint8 `json:"n187"`
	F188 []int `json:"n188"`
	F189 struct{ A int; B string }
	F190 uint8 `json:"n190"`
	F191 []int `json:"n191"`
	F192 struct{ A int; B string }
	F193 uint8 `json:"n193"`
	F194 []int `json:"n194"`
	F195 struct{ A int; B string }
	F196 uint8 `json:"n196"`
	F197 []int `json:"n197"`
	F198 struct{ A int; B string }
	F199 uint8 `json:"n199"`
	F200 []int `json:"n200"`
	F201 struct{ A int; B string }
	F202 uint8 `json:"n202"`
	F203 []int `json:"n203"`
	F204 struct{ A int; B string }
	F205 uint8 `json:"n205"`
	F206 []int `json:"n206"`
	F207 struct{ A int; B string }
	F208 uint8 `json:"n208"`
	F209 []int `json:"n209"`
	F210 struct{ A int; B string }
	F211 uint8 `json:"n211"`
	F212 []int `json:"n212"`
	F213 struct{ A int; B string }
	F214 uint8 `json:"n214"`
	F215 []int `json:"n215"`
	F216 struct{ A int; B string }
	F217 uint8 `json:"n217"`
	F218 []int `json:"n218"`
	F219 struct{ A int; B string }
	F220 uint8 `json:"n220"`
	F221 []int `json:"n221"`
	F222 struct{ A int; B string }
	F223 uint8 `json:"n223"`
	F224 []int `json:"n224"`
	F225 struct{ A int; B string }
	F226 uint8 `json:"n226"`
	F227 []int `json:"n227"`
	F228 struct{ A int; B string }
	F229 uint8 `json:"n229"`
	F230 []int `json:"n230"`
	F231 struct{ A int; B string }
	F232 uint8 `json:"n232"`
	F233 []int `json:"n233"`
	F234 struct{ A int; B string }
	F235 uint8 `json:"n235"`
	F236 []int `json:"n236"`
	F237 struct{ A int; B string }
	F238 uint8 `json:"n238"`
	F239 []int `json:"n239"`
	F240 struct{ A int; B string }
	F241 uint8 `json:"n241"`
	F242 []int `json:"n242"`
	F243 struct{ A int; B string }
	F244 uint8 `json:"n244"`
	F245 []int `json:"n245"`
	F246 struct{ A int; B string }
	F247 uint8 `json:"n247"`
	F248 []int `json:"n248"`
	F249 struct{ A int; B string }
	F250 uint8 `json:"n250"`
	F251 []int `json:"n251"`
	F252 struct{ A int; B string }
	F253 uint8 `json:"n253"`
	F254 []int `json:"n254"`
	F255 struct{ A int; B string }
	F256 uint8 `json:"n256"`
	F257 []int `json:"n257"`
	F258 struct{ A int; B string }
	F259 uint8 `json:"n259"`
}

// Deep24 is nested 24 levels deep.
type Deep24 struct{ A23 int8; D struct{ A22 int8; D struct{ D struct{ A20 int8; D struct{ A19 int8; D struct{ D struct{ A17 int8; D struct{ A16 int8; D struct{ D struct{ A14 int8; D struct{ A13 int8; D struct{ D struct{ A11 int8; D struct{ A10 int8; D struct{ D struct{ A8 int8; D struct{ A7 int8; D struct{ D struct{ A5 int8; D struct{ A4 int8; D struct{ D struct{ A2 int8; D struct{ A1 int8; D struct{ D struct{ Z int; S []string }; B0 *int }; B1 string }; B2 string }; B3 *int }; B4 string }; B5 string }; B6 *int }; B7 string }; B8 string }; B9 *int }; B10 string }; B11 string }; B12 *int }; B13 string }; B14 string }; B15 *int }; B16 string }; B17 string }; B18 *int }; B19 string }; B20 string }; B21 *int }; B22 string }; B23 string }

// Deep20 is nested 20 levels deep.
type Deep20 map[string]*[2][]map[string]*[2][]map[string]*[2][]map[string]*[2][]map[string]*[2][]int16

// Ptr12 is a pointer to a pointer and so on.
type Ptr12 ************int

// Sl12 has 12 dimensions.
type Sl12 [][][][][][][][][][][][]int8

// Arr6 has 6 dimensions.
type Arr6 [2][1][3][2][1][2]int8

// Big is larger than 64 kB.
type Big struct {
	A [9000]int64
	B string
	C *int
}

// BigSl has elements of 2 kB.
type BigSl []struct {
	A [250]int64
	B string
}

// BigMap has values of 2 kB.
type BigMap map[string]struct {
	A [500]int32
	B string
	C []*int
}

// RWide is recursive with many fields.
type RWide struct {
	F0 int
	F1 *RWide
	F2 string
	F3 []RWide
	F4 map[string]RWide
	F5 []*RWide
	F6 *int
	F7 int
	F8 *RWide
	F9 string
	F10 []RWide
	F11 map[string]RWide
	F12 []*RWide
	F13 *int
	F14 int
	F15 *RWide
	F16 string
	F17 []RWide
	F18 map[string]RWide
	F19 []*RWide
	F20 *int
	F21 int
	F22 *RWide
	F23 string
	F24 []RWide
	F25 map[string]RWide
	F26 []*RWide
	F27 *int
	F28 int
	F29 *RWide
	F30 string
	F31 []RWide
	F32 map[string]RWide
	F33 []*RWide
	F34 *int
	F35 int
	F36 *RWide
	F37 string
	F38 []RWide
	F39 map[string]RWide
}

// RW300 is recursive, also through RW280, after many containers.
type RW300 struct {
	F0 []int
	F1 struct{}
	F2 map[string]int8
	F3 [2]bool
	F4 struct{ A int }
	F5 []string
	F6 []int
	F7 struct{}
	F8 map[string]int8
	F9 [2]bool
	F10 struct{ A int }
	F11 []string
	F12 []int
	F13 struct{}
	F14 map[string]int8
	F15 [2]bool
	F16 struct{ A int }
	F17 []string
	F18 []int
	F19 struct{}
	F20 map[string]int8
	F21 [2]bool
	F22 struct{ A int }
	F23 []string
	F24 []int
	F25 struct{}
	F26 map[string]int8
	F27 [2]bool
	F28 struct{ A int }
	F29 []string
	F30 []int
	F31 struct{}
	F32 map[string]int8
	F33 [2]bool
	F34 struct{ A int }
	F35 []string
	F36 []int
	F37 struct{}
	F38 map[string]int8
	F39 [2]bool
	F40 struct{ A int }
	F41 []string
	F42 []int
	F43 struct{}
	F44 map[string]int8
	F45 [2]bool
	F46 struct{ A int }
	F47 []string
	F48 []int
	F49 struct{}
	F50 map[string]int8
	F51 [2]bool
	F52 struct{ A int }
	F53 []string
	F54 []int
	F55 struct{}
	F56 map[string]int8
	F57 [2]bool
	F58 struct{ A int }
	F59 []string
	F60 []int
	F61 struct{}
	F62 map[string]int8
	F63 [2]bool
	F64 struct{ A int }
	F65 []string
	F66 []int
	F67 struct{}
	F68 map[string]int8
	F69 [2]bool
	F70 struct{ A int }
	F71 []string
	F72 []int
	F73 struct{}
	F74 map[string]int8
	F75 [2]bool
	F76 struct{ A int }
	F77 []string
	F78 []int
	F79 struct{}
	F80 map[string]int8
	F81 [2]bool
	F82 struct{ A int }
	F83 []string
	F84 []int
	F85 struct{}
	F86 map[string]int8
	F87 [2]bool
	F88 struct{ A int }
	F89 []string
	F90 []int
	F91 struct{}
	F92 map[string]int8
	F93 [2]bool
	F94 struct{ A int }
	F95 []string
	F96 []int
	F97 struct{}
	F98 map[string]int8
	F99 [2]bool
	F100 struct{ A int }
	F101 []string
	F102 []int
	F103 struct{}
	F104 map[string]int8
	F105 [2]bool
	F106 struct{ A int }
	F107 []string
	F108 []int
	F109 struct{}
	F110 map[string]int8
	F111 [2]bool
	F112 struct{ A int }
	F113 []string
	F114 []int
	F115 struct{}
	F116 map[string]int8
	F117 [2]bool
	F118 struct{ A int }
	F119 []string
	F120 []int
	F121 struct{}
	F122 map[string]int8
	F123 [2]bool
	F124 struct{ A int }
	F125 []string
	F126 []int
	F127 struct{}
	F128 map[string]int8
	F129 [2]bool
	F130 struct{ A int }
	F131 []string
	F132 []int
	F133 struct{}
	F134 map[string]int8
	F135 [2]bool
	F136 struct{ A int }
	F137 []string
	F138 []int
	F139 struct{}
	F140 map[string]int8
	F141 [2]bool
	F142 struct{ A int }
	F143 []string
	F144 []int
	F145 struct{}
	F146 map[string]int8
	F147 [2]bool
	F148 struct{ A int }
	F149 []string
	F150 []int
	F151 struct{}
	F152 map[string]int8
	F153 [2]bool
	F154 struct{ A int }
	F155 []string
	F156 []int
	F157 struct{}
	F158 map[string]int8
	F159 [2]bool
	F160 struct{ A int }
	F161 []string
	F162 []int
	F163 struct{}
	F164 map[string]int8
	F165 [2]bool
	F166 struct{ A int }
	F167 []string
	F168 []int
	F169 struct{}
	F170 map[string]int8
	F171 [2]bool
	F172 struct{ A int }
	F173 []string
	F174 []int
	F175 struct{}
	F176 map[string]int8
	F177 [2]bool
	F178 struct{ A int }
	F179 []string
	F180 []int
	F181 struct{}
	F182 map[string]int8
	F183 [2]bool
	F184 struct{ A int }
	F185 []string
	F186 []int
	F187 struct{}
	F188 map[string]int8
	F189 [2]bool
	F190 struct{ A int }
	F191 []string
	F192 []int
	F193 struct{}
	F194 map[string]int8
	F195 [2]bool
	F196 struct{ A int }
	F197 []string
	F198 []int
	F199 struct{}
	F200 map[string]int8
	F201 [2]bool
	F202 struct{ A int }
	F203 []string
	F204 []int
	F205 struct{}
	F206 map[string]int8
	F207 [2]bool
	F208 struct{ A int }
	F209 []string
	F210 []int
	F211 struct{}
	F212 map[string]int8
	F213 [2]bool
	F214 struct{ A int }
	F215 []string
	F216 []int
	F217 struct{}
	F218 map[string]int8
	F219 [2]bool
	F220 struct{ A int }
	F221 []string
	F222 []int
	F223 struct{}
	F224 map[string]int8
	F225 [2]bool
	F226 struct{ A int }
	F227 []string
	F228 []int
	F229 struct{}
	F230 map[string]int8
	F231 [2]bool
	F232 struct{ A int }
	F233 []string
	F234 []int
	F235 struct{}
	F236 map[string]int8
	F237 [2]bool
	F238 struct{ A int }
	F239 []string
	F240 []int
	F241 struct{}
	F242 map[string]int8
	F243 [2]bool
	F244 struct{ A int }
	F245 []string
	F246 []int
	F247 struct{}
	F248 map[string]int8
	F249 [2]bool
	F250 struct{ A int }
	F251 []string
	F252 []int
	F253 struct{}
	F254 map[string]int8
	F255 [2]bool
	F256 struct{ A int }
	F257 []string
	F258 []int
	F259 struct{}
	F260 map[string]int8
	F261 [2]bool
	F262 struct{ A int }
	F263 []string
	F264 []int
	F265 struct{}
	F266 map[string]int8
	F267 [2]bool
	F268 struct{ A int }
	F269 []string
	F270 []int
	F271 struct{}
	F272 map[string]int8
	F273 [2]bool
	F274 struct{ A int }
	F275 []string
	F276 []int
	F277 struct{}
	F278 map[string]int8
	F279 [2]bool
	F280 struct{ A int }
	F281 []string
	F282 []int
	F283 struct{}
	F284 map[string]int8
	F285 [2]bool
	F286 struct{ A int }
	F287 []string
	F288 []int
	F289 struct{}
	F290 map[string]int8
	F291 [2]bool
	F292 struct{ A int }
	F293 []string
	F294 []int
	F295 struct{}
	F296 map[string]int8
	F297 [2]bool
	F298 struct{ A int }
	F299 []string
	P *RW300
	L []RW300
	M map[string]RW300
	O *RW280
	Q []*RW280
	Z int
}

// RW280 is recursive, also through RW300, after many containers.
type RW280 struct {
	F0 []int
	F1 struct{}
	F2 map[string]int8
	F3 [2]bool
	F4 struct{ A int }
	F5 []string
	F6 []int
	F7 struct{}
	F8 map[string]int8
	F9 [2]bool
	F10 struct{ A int }
	F11 []string
	F12 []int
	F13 struct{}
	F14 map[string]int8
	F15 [2]bool
	F16 struct{ A int }
	F17 []string
	F18 []int
	F19 struct{}
	F20 map[string]int8
	F21 [2]bool
	F22 struct{ A int }
	F23 []string
	F24 []int
	F25 struct{}
	F26 map[string]int8
	F27 [2]bool
	F28 struct{ A int }
	F29 []string
	F30 []int
	F31 struct{}
	F32 map[string]int8
	F33 [2]bool
	F34 struct{ A int }
	F35 []string
	F36 []int
	F37 struct{}
	F38 map[string]int8
	F39 [2]bool
	F40 struct{ A int }
	F41 []string
	F42 []int
	F43 struct{}
	F44 map[string]int8
	F45 [2]bool
	F46 struct{ A int }
	F47 []string
	F48 []int
	F49 struct{}
	F50 map[string]int8
	F51 [2]bool
	F52 struct{ A int }
	F53 []string
	F54 []int
	F55 struct{}
	F56 map[string]int8
	F57 [2]bool
	F58 struct{ A int }
	F59 []string
	F60 []int
	F61 struct{}
	F62 map[string]int8
	F63 [2]bool
	F64 struct{ A int }
	F65 []string
	F66 []int
	F67 struct{}
	F68 map[string]int8
	F69 [2]bool
	F70 struct{ A int }
	F71 []string
	F72 []int
	F73 struct{}
	F74 map[string]int8
	F75 [2]bool
	F76 struct{ A int }
	F77 []string
	F78 []int
	F79 struct{}
	F80 map[string]int8
	F81 [2]bool
	F82 struct{ A int }
	F83 []string
	F84 []int
	F85 struct{}
	F86 map[string]int8
	F87 [2]bool
	F88 struct{ A int }
	F89 []string
	F90 []int
	F91 struct{}
	F92 map[string]int8
	F93 [2]bool
	F94 struct{ A int }
	F95 []string
	F96 []int
	F97 struct{}
	F98 map[string]int8
	F99 [2]bool
	F100 struct{ A int }
	F101 []string
	F102 []int
	F103 struct{}
	F104 map[string]int8
	F105 [2]bool
	F106 struct{ A int }
	F107 []string
	F108 []int
	F109 struct{}
	F110 map[string]int8
	F111 [2]bool
	F112 struct{ A int }
	F113 []string
	F114 []int
	F115 struct{}
	F116 map[string]int8
	F117 [2]bool
	F118 struct{ A int }
	F119 []string
	F120 []int
	F121 struct{}
	F122 map[string]int8
	F123 [2]bool
	F124 struct{ A int }
	F125 []string
	F126 []int
	F127 struct{}
	F128 map[string]int8
	F129 [2]bool
	F130 struct{ A int }
	F131 []string
	F132 []int
	F133 struct{}
	F134 map[string]int8
	F135 [2]bool
	F136 struct{ A int }
	F137 []string
	F138 []int
	F139 struct{}
	F140 map[string]int8
	F141 [2]bool
	F142 struct{ A int }
	F143 []string
	F144 []int
	F145 struct{}
	F146 map[string]int8
	F147 [2]bool
	F148 struct{ A int }
	F149 []string
	F150 []int
	F151 struct{}
	F152 map[string]int8
	F153 [2]bool
	F154 struct{ A int }
	F155 []string
	F156 []int
	F157 struct{}
	F158 map[string]int8
	F159 [2]bool
	F160 struct{ A int }
	F161 []string
	F162 []int
	F163 struct{}
	F164 map[string]int8
	F165 [2]bool
	F166 struct{ A int }
	F167 []string
	F168 []int
	F169 struct{}
	F170 map[string]int8
	F171 [2]bool
	F172 struct{ A int }
	F173 []string
	F174 []int
	F175 struct{}
	F176 map[string]int8
	F177 [2]bool
	F178 struct{ A int }
	F179 []string
	F180 []int
	F181 struct{}
	F182 map[string]int8
	F183 [2]bool
	F184 struct{ A int }
	F185 []string
	F186 []int
	F187 struct{}
	F188 map[string]int8
	F189 [2]bool
	F190 struct{ A int }
	F191 []string
	F192 []int
	F193 struct{}
	F194 map[string]int8
	F195 [2]bool
	F196 struct{ A int }
	F197 []string
	F198 []int
	F199 struct{}
	F200 map[string]int8
	F201 [2]bool
	F202 struct{ A int }
	F203 []string
	F204 []int
	F205 struct{}
	F206 map[string]int8
	F207 [2]bool
	F208 struct{ A int }
	F209 []string
	F210 []int
	F211 struct{}
	F212 map[string]int8
	F213 [2]bool
	F214 struct{ A int }
	F215 []string
	F216 []int
	F217 struct{}
	F218 map[string]int8
	F219 [2]bool
	F220 struct{ A int }
	F221 []string
	F222 []int
	F223 struct{}
	F224 map[string]int8
	F225 [2]bool
	F226 struct{ A int }
	F227 []string
	F228 []int
	F229 struct{}
	F230 map[string]int8
	F231 [2]bool
	F232 struct{ A int }
	F233 []string
	F234 []int
	F235 struct{}
	F236 map[string]int8
	F237 [2]bool
	F238 struct{ A int }
	F239 []string
	F240 []int
	F241 struct{}
	F242 map[string]int8
	F243 [2]bool
	F244 struct{ A int }
	F245 []string
	F246 []int
	F247 struct{}
	F248 map[string]int8
	F249 [2]bool
	F250 struct{ A int }
	F251 []string
	F252 []int
	F253 struct{}
	F254 map[string]int8
	F255 [2]bool
	F256 struct{ A int }
	F257 []string
	F258 []int
	F259 struct{}
	F260 map[string]int8
	F261 [2]bool
	F262 struct{ A int }
	F263 []string
	F264 []int
	F265 struct{}
	F266 map[string]int8
	F267 [2]bool
	F268 struct{ A int }
	F269 []string
	F270 []int
	F271 struct{}
	F272 map[string]int8
	F273 [2]bool
	F274 struct{ A int }
	F275 []string
	F276 []int
	F277 struct{}
	F278 map[string]int8
	F279 [2]bool
	P *RW280
	L []RW280
	M map[string]RW280
	O *RW300
	Q []*RW300
	Z int
}
