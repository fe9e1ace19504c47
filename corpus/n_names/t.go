package names

//json:strict
type T1 struct {
	F0 string `json:"a"`
	F1 string `json:"A"`
	F2 string `json:"aa"`
	F3 string `json:"aA"`
	F4 string `json:"Aa"`
	F5 string `json:"AA"`
	F6 string `json:"ab"`
	F7 string `json:"abc"`
	F8 string `json:"abcd"`
	F9 string `json:"b"`
	F10 string `json:"ba"`
	F11 string `json:"_"`
	F12 string `json:"-a"`
	F13 string `json:"a-"`
	F14 string `json:"a_"`
	F15 string `json:"a.b"`
	F16 string `json:"a.b.c"`
	F17 string `json:"."`
	F18 string `json:".."`
	F19 string `json:"a b"`
	F20 string `json:" a"`
	F21 string `json:"$"`
	F22 string `json:"$id"`
	F23 string `json:"@type"`
	F24 string `json:"#"`
	F25 string `json:"a/b"`
	F26 string `json:"/"`
	F27 string `json:"~"`
	F28 string `json:"a~1b"`
	F29 string `json:"%"`
	F30 string `json:"%s"`
	F31 string `json:"%d%"`
	F32 string `json:"0"`
	F33 string `json:"00"`
	F34 string `json:"01"`
	F35 string `json:"1"`
	F36 string `json:"-1"`
	F37 string `json:"1.0"`
	F38 string `json:"null"`
	F39 string `json:"true"`
	F40 string `json:"json"`
	F41 string `json:"omitempty"`
	F42 string `json:"é"`
	F43 string `json:"É"`
	F44 string `json:"e"`
	F45 string `json:"名前"`
	F46 string `json:"😀"`
	F47 string `json:"ß"`
	F48 string `json:"ſ"`
	F49 string `json:"K"`
	F50 string `json:"a:b"`
	F51 string `json:"a;b"`
	F52 string `json:"a=b"`
	F53 string `json:"(a)"`
	F54 string `json:"[0]"`
	F55 string `json:"{a}"`
	F56 string `json:"<a>"`
	F57 string `json:"&"`
	F58 string `json:"*"`
	F59 string `json:"?"`
	F60 string `json:"!"`
	F61 string `json:"|"`
	F62 string `json:"^"`
}

//json:json
type T2 struct {
	F0 int `json:"a,omitempty"`
	F1 int `json:"A,omitempty"`
	F2 int `json:"aa,omitempty"`
	F3 int `json:"aA,omitempty"`
	F4 int `json:"Aa,omitempty"`
	F5 int `json:"AA,omitempty"`
	F6 int `json:"ab,omitempty"`
	F7 int `json:"abc,omitempty"`
	F8 int `json:"abcd,omitempty"`
	F9 int `json:"b,omitempty"`
	F10 int `json:"ba,omitempty"`
	F11 int `json:"_,omitempty"`
	F12 int `json:"-a,omitempty"`
	F13 int `json:"a-,omitempty"`
	F14 int `json:"a_,omitempty"`
	F15 int `json:"a.b,omitempty"`
	F16 int `json:"a.b.c,omitempty"`
	F17 int `json:".,omitempty"`
	F18 int `json:"..,omitempty"`
	F19 int `json:"a b,omitempty"`
	F20 int `json:" a,omitempty"`
	F21 int `json:"$,omitempty"`
	F22 int `json:"$id,omitempty"`
	F23 int `json:"@type,omitempty"`
	F24 int `json:"#,omitempty"`
	F25 int `json:"a/b,omitempty"`
	F26 int `json:"/,omitempty"`
	F27 int `json:"~,omitempty"`
	F28 int `json:"a~1b,omitempty"`
	F29 int `json:"%,omitempty"`
	F30 int `json:"%s,omitempty"`
	F31 int `json:"%d%,omitempty"`
	F32 int `json:"0,omitempty"`
	F33 int `json:"00,omitempty"`
	F34 int `json:"01,omitempty"`
	F35 int `json:"1,omitempty"`
	F36 int `json:"-1,omitempty"`
	F37 int `json:"1.0,omitempty"`
	F38 int `json:"null,omitempty"`
	F39 int `json:"true,omitempty"`
	F40 int `json:"json,omitempty"`
	F41 int `json:"omitempty,omitempty"`
	F42 int `json:"é,omitempty"`
	F43 int `json:"É,omitempty"`
	F44 int `json:"e,omitempty"`
	F45 int `json:"名前,omitempty"`
	F46 int `json:"😀,omitempty"`
	F47 int `json:"ß,omitempty"`
	F48 int `json:"ſ,omitempty"`
	F49 int `json:"K,omitempty"`
	F50 int `json:"a:b,omitempty"`
	F51 int `json:"a;b,omitempty"`
	F52 int `json:"a=b,omitempty"`
	F53 int `json:"(a),omitempty"`
	F54 int `json:"[0],omitempty"`
	F55 int `json:"{a},omitempty"`
	F56 int `json:"<a>,omitempty"`
	F57 int `json:"&,omitempty"`
	F58 int `json:"*,omitempty"`
	F59 int `json:"?,omitempty"`
	F60 int `json:"!,omitempty"`
	F61 int `json:"|,omitempty"`
	F62 int `json:"^,omitempty"`
}

//json:strict
type T3 struct {
	F0 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F1 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F2 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F3 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F4 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F5 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F6 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F7 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F8 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F9 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F10 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F11 *int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
}

//json:json
type T4 struct {
	F0 []int `json:"a"`
	F1 []int `json:"A"`
	F2 []int `json:"aa"`
	F3 []int `json:"aA"`
	F4 []int `json:"Aa"`
	F5 []int `json:"AA"`
	F6 []int `json:"ab"`
	F7 []int `json:"abc"`
	F8 []int `json:"abcd"`
	F9 []int `json:"b"`
	F10 []int `json:"ba"`
	F11 []int `json:"_"`
	F12 []int `json:"-a"`
	F13 []int `json:"a-"`
	F14 []int `json:"a_"`
	F15 []int `json:"a.b"`
	F16 []int `json:"a.b.c"`
	F17 []int `json:"."`
	F18 []int `json:".."`
	F19 []int `json:"a b"`
	F20 []int `json:" a"`
	F21 []int `json:"$"`
	F22 []int `json:"$id"`
	F23 []int `json:"@type"`
	F24 []int `json:"#"`
	F25 []int `json:"a/b"`
	F26 []int `json:"/"`
	F27 []int `json:"~"`
	F28 []int `json:"a~1b"`
	F29 []int `json:"%"`
	F30 []int `json:"%s"`
	F31 []int `json:"%d%"`
	F32 []int `json:"0"`
	F33 []int `json:"00"`
	F34 []int `json:"01"`
	F35 []int `json:"1"`
	F36 []int `json:"-1"`
	F37 []int `json:"1.0"`
	F38 []int `json:"null"`
	F39 []int `json:"true"`
}

//json:json
type T5 struct {
	F0 map[string]int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F1 map[string]int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F2 map[string]int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F3 map[string]int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F4 map[string]int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F5 map[string]int `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F6 map[string]int `json:"json"`
	F7 map[string]int `json:"omitempty"`
	F8 map[string]int `json:"é"`
	F9 map[string]int `json:"É"`
	F10 map[string]int `json:"e"`
	F11 map[string]int `json:"名前"`
	F12 map[string]int `json:"😀"`
	F13 map[string]int `json:"ß"`
	F14 map[string]int `json:"ſ"`
	F15 map[string]int `json:"K"`
	F16 map[string]int `json:"a:b"`
	F17 map[string]int `json:"a;b"`
	F18 map[string]int `json:"a=b"`
	F19 map[string]int `json:"(a)"`
	F20 map[string]int `json:"[0]"`
	F21 map[string]int `json:"{a}"`
	F22 map[string]int `json:"<a>"`
	F23 map[string]int `json:"&"`
	F24 map[string]int `json:"*"`
	F25 map[string]int `json:"?"`
	F26 map[string]int `json:"!"`
	F27 map[string]int `json:"|"`
	F28 map[string]int `json:"^"`
}

