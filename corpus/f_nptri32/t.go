package f_nptri32

//json:json
type T1 struct {
	A0 int     `json:"a0,omitempty"`
	F  NPtrI32 `json:"f"`
	Z  string  `json:"z"`
}

//json:json
type T2 struct {
	F NPtrI32 `json:"f,omitempty"`
	G NPtrI32 `json:"g"`
	H NPtrI32 `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F NPtrI32 `json:"f,required"`
	B bool    `json:"b"`
}

//json:json
type T4 struct {
	A0 NPtrI32 `json:"a0"`
	F  NPtrI32 `json:"f,omitempty" default:"-17"`
	G  NPtrI32 `json:"g" default:"-17"`
}

type NPtrI32 *int32
