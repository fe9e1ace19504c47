package decl

//json:json
type Error struct {
	Error string `json:"error"`
	Code  int    `json:"code"`
}

//json:json
type String string

//json:json
type Value []String

//json:json
type Parser map[String]Error

//json:strict
type value struct {
	A Parser `json:"a"`
	B Value  `json:"b"`
	C String `json:"c"`
	D Error  `json:"d"`
	E *value `json:"e"`
}

//json:json
type X struct {
	Y Y `json:"y"`
}

//json:json
type Y struct {
	X []X `json:"x"`
}

//json:json
type T_1 struct {
	T int `json:"t"`
}

//json:json
type Żółć struct {
	Ż int `json:"ż"`
}

//json:json
type Result struct {
	Result *Result `json:"result"`
	Data   []byte  `json:"data"`
}
