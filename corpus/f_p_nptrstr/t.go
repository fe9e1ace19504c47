package f_p_nptrstr

//json:json
type T1 struct {
	A0 int      `json:"a0,omitempty"`
	F  *NPtrStr `json:"f"`
	Z  string   `json:"z"`
}

//json:json
type T2 struct {
	F *NPtrStr `json:"f,omitempty"`
	G *NPtrStr `json:"g"`
	H *NPtrStr `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *NPtrStr `json:"f,required"`
	B bool     `json:"b"`
}

//json:json
type T4 struct {
	A0 *NPtrStr `json:"a0"`
	F  *NPtrStr `json:"f,omitempty" default:"some text"`
	G  *NPtrStr `json:"g" default:"some text"`
}

type NPtrStr *string
