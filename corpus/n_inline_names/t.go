package names

type Id struct {
	ID int `json:"id"`
}

//json:json
type Sub struct {
	SUB int `json:"s"`
}

type Name struct {
	Name string `json:"name"`
}

type Names struct {
	Name string `json:"nm"`
	Nick string `json:"nick,omitempty"`
}

type A struct {
	X int `json:"ax"`
}

type B struct {
	A `json:",inline"`
	B1 int `json:"b1"`
}

//json:json
type T1 struct {
	Id    `json:",inline"`
	Names `json:",inline"`
	V     int `json:"v"`
}

//json:strict
type T2 struct {
	Id `json:",inline"`
	B  `json:",inline"`
}

//json:json
type T3 struct {
	Pre int `json:"pre"`
	B   `json:",inline"`
	Sub `json:"sub"`
}
